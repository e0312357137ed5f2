from vlib.impl import *
from vlib import textgen
sb = require_repo()
sen = sb.Sentencizer()
out = Out()
texts = textgen.sentencizer_texts(RNG, scale(900, 15000), scale(900, 15000), scale(4, 5), scale(120, 1500))
known = P.get('known', [])
for t in known + texts:
    st, r = call(sen, t, limit=10)
    case = {'text': codes(t), 'key': t, 'show': {'text': t, 'observed': r}}
    if t in known:
        case['free'] = 1
    if st == 'ok' and isinstance(r, list) and all(isinstance(x, str) for s in r for x in s):
        out.put(sents=[[codes(x) for x in s] for s in r], **case)
    else:
        out.put(exc=str(r)[:200], **case)
out.close()
