"""What the analysis knows of repeated sequences: every check below must hold on every path."""
from base import *
import itertools


def spec_repeat():
    v = any_value('v', 'list')
    items = [None] * len(v)
    check(len(items) == len(v), 'as many')
    check([1, 2] * 2 == [1, 2, 1, 2] and 2 * (1,) == (1, 1) and 'ab' * 2 == 'abab', 'constants')
    check(list(itertools.repeat('x', len(v))) == ['x'] * len(v), 'repeat')
    n = 0
    for a, b in zip(itertools.repeat(1), v):
        check(a == 1, 'endless')
        n += 1
    check(n == len(v), 'as long as the other')
    check([i for i, _ in zip(itertools.count(1), v)] == [i + 1 for i in range(len(v))], 'counted')
    check(list(itertools.islice(itertools.count(), 3)) == [0, 1, 2], 'the first')
    check(list(map(lambda a, b: a + b, itertools.count(), [1, 2])) == [1, 3], 'mapped')
    check(list(zip([1, 2, 3], itertools.cycle('ab'))) == [(1, 'a'), (2, 'b'), (3, 'a')], 'in circles')
    for i in itertools.count():
        if i == 5:
            break
    check(i == 5, 'counting')
    check(list(itertools.takewhile(lambda i: i < 3, itertools.count())) == [0, 1, 2], 'while')


def spec_text():
    x = any_value('x', 'str')
    check(x * 2 == x + x and x * 0 == '', 'text')
    n = any_value('n', 'str', 'float')
    try:
        [1] * n
        fail('no number of times')
    except TypeError:
        reach('type error')
