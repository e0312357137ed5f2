"""Synthetic data folder (language model files, word vectors, english tables) in a scratch directory."""
import os
import pathlib
import shutil

from vlib.impl import P, REPO


def use_data_dir(path):
    """Points scrappybara's data folder to a scratch directory"""
    import scrappybara.config as cfg
    cfg.DATA_DIR = pathlib.Path(path)


def new_data_dir(name, english=True):
    root = os.path.join(P['scratch'], 'data_' + name)
    for sub in ('langmodel', 'models', 'english'):
        os.makedirs(os.path.join(root, sub), exist_ok=True)
    src = os.path.join(REPO, 'scrappybara', 'data')
    if english:
        for f in os.listdir(os.path.join(src, 'english')):
            shutil.copy(os.path.join(src, 'english', f), os.path.join(root, 'english', f))
    shutil.copy(os.path.join(src, 'models', 'char_codes.pkl'), os.path.join(root, 'models', 'char_codes.pkl'))
    return root


def write_grams(root, rows):
    """rows: order => list of (text, count, p) with p an integer, in units of 1e-6"""
    for o, rs in rows.items():
        with open(os.path.join(root, 'langmodel', '%d_grams.txt' % o), 'w', encoding='utf-8') as f:
            for t, c, p in rs:
                f.write('%s\t%d\t%.17f\n' % (t, c, p / 1e6))
