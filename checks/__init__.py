"""Registry: property id -> function(ctx)"""
REGISTRY = {}


def check(prop):
    def deco(fn):
        REGISTRY[prop] = fn
        return fn
    return deco


from checks import preprocessing
from checks import langmodel
from checks import normalization
from checks import parallel
from checks import syntax, semantics, pipeline
from checks import utils
