"""Comparing what is reported on two forms of the same exchange."""

import copy

from vp import focus, gen, hp


def base(rng, wild=(0, .05, .1)):
    """Any exchange, often one where the headers matter to each other."""
    if rng.random() < .75:
        return focus.RECIPES[rng.choice(sorted(focus.RECIPES))](rng)
    return gen.exchange(rng, rng.choice(wild))


def messages(spec):
    return ([spec['req']] if spec['req'] else []) + spec['resps']


def unsilence(spec):
    for m in messages(spec):
        m['headers'] = [h for h in m['headers']
                        if h[0].lower() != 'httpolice-silence']
    return spec


def seen(spec):
    """[set of notices of every message], the exchange itself being last"""
    exch = hp.check(spec)
    r = [set(hp.ids(exch.request))] if exch.request is not None else []
    return r + [set(hp.ids(p)) for p in exch.responses] + [set(hp.ids(exch))]


def compare(a, b, judge, tries=3):
    """Check both, let `judge(seen_a, seen_b)` say what is wrong.

    The clock may tick in between, so what is wrong must stay wrong.
    """
    for _ in range(tries):
        wrong = judge(seen(copy.deepcopy(a)), seen(copy.deepcopy(b)))
        if not wrong:
            return None
    return wrong


def find(headers, name):
    return [k for k, (n, _) in enumerate(headers) if n.lower() == name.lower()]
