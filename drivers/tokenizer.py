from vlib.impl import *
from vlib import textgen
sb = require_repo()
tok = sb.Tokenizer()
out = Out()
texts = textgen.tokenizer_texts(RNG, scale(4000, 60000), scale(4000, 60000), scale(2000, 20000), scale(4, 5), scale(140, 2000))
known = P.get('known', [])
for t in known + texts:
    st, r = call(tok, t, limit=10)
    case = {'text': codes(t), 'key': t, 'show': {'text': t, 'observed': r}}
    if t in known:
        case['free'] = 1
    if st == 'ok' and isinstance(r, list) and all(isinstance(x, str) for x in r):
        out.put(toks=[codes(x) for x in r], **case)
    else:
        out.put(exc=str(r)[:200], **case)
out.close()
