"""The synthetic language of the logical part: word lists and a small language model in a scratch data folder."""
import os

from vlib import sentgen, world

root = world.new_data_dir('logic')
ADJS = ['big', 'low', 'light', 'tired', 'eaten', 'women', 'cake', 'bob', 'it', '1951']
NOUNS = ['dog', 'gold', 'light', 'low', 'cake', 'eaten', 'big dog', 'broken']


def write(name, lines):
    with open(os.path.join(root, 'english', name), 'w', encoding='utf-8') as f:
        f.write('\n'.join(lines) + '\n')


write('adjectives.txt', ADJS)
write('nouns.txt', NOUNS)
words = sorted({w.lower() for ws in sentgen.VOC.values() for w in ws} | {'color', 'argue', 'try', 'stop', 'run', 'dog', 'policy', 'woman', 'organize', 'tire', 'paint',
                                                                         'break', 'stopped', 'tried', 'loved', 'taxed', 'argued', 'big', 'happy', 'tax', 'organized'})
world.write_grams(root, {1: [(w, 4 + k % 9, 1000 + 37 * k) for k, w in enumerate(words)],
                         2: [('i eat', 5, 99), ('to run', 5, 98), ('they tire', 3, 97)]})
world.use_data_dir(root)


def table(name):
    with open(os.path.join(root, 'english', name), encoding='utf-8') as f:
        return dict(line.strip().split('\t') for line in f)


def read(stuples):
    """Tuples as lists of arguments"""
    res = []
    for t in stuples:
        args = [t.arg(k) for k in range(len(t))]
        for a in args:
            if not isinstance(a.word, str) or not isinstance(a.code, str) or not isinstance(a.is_affirmative, bool):
                raise TypeError('bad argument in %r' % t)
        res.append([{'w': a.word, 'c': a.code, 'a': a.is_affirmative} for a in args])
    return res
