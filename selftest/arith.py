"""What the analysis knows of sums, differences and whole parts: every check below must hold on every path."""
from base import *


def spec_sums():
    x, y = any_value('x', 'int'), any_value('y', 'int')
    if x < y:
        check(x + 1 <= y, 'x < y gives x + 1 <= y')
        check(y - x > 0, 'x < y gives y - x > 0')
        check(x - y < 0, 'x < y gives x - y < 0')
        check(not (x >= y), 'not x >= y')
        check(x != y, 'x != y')
        check(x < y + 1, 'x < y + 1')
        check(-x > -y, 'negation')
        check(x - y != 0, 'difference')
    else:
        check(x + 1 > y, 'x + 1 > y')
        check(x - y >= 0, 'x - y >= 0')
        check(not x - y < 0, 'not x - y < 0')
    check(x + 1 - 1 == x, 'there and back')
    check(x + y - y == x, 'cancelled')
    check(2 * x - x == x, 'doubled')
    check(2 * x != 7, 'even')
    check((2 * x < 7) == (x <= 3), 'even bounds')
    check((3 - x > 0) == (x < 3), 'constant minus')
    check(x + 1 > x, 'larger')
    check(x + 2 != x, 'other')


def spec_len():
    s = any_value('s', 'str')
    if len(s) + 1 > 1:
        check(len(s) >= 1, 'not empty')
    else:
        check(s == '', 'empty')
    n = any_value('n', 'int')
    if len(s) - n > 0:
        check(n < len(s), 'shorter')
    else:
        check(len(s) <= n, 'longer')


def spec_order_later():
    x, y = any_value('x', 'int'), any_value('y', 'int')
    d = x - y
    if d == 3:
        check(x == y + 3, 'known difference')
        check(x > y, 'sign of the difference')
    if y == 2:
        check((d == 0) == (x == 2), 'known operand')


def spec_differences_of_floats():
    x, y = any_value('x', 'float'), any_value('y', 'float')
    if x - y > 0:
        check(x > y, 'larger')
    elif x - y == 0:
        check(x == y, 'equal')
    else:
        check(x < y, 'smaller')


def spec_whole():
    x = any_value('x', 'float')
    try:
        n = int(x)
    except (ValueError, OverflowError):
        return
    check((n == x) == x.is_integer(), 'whole part')
    check((x % 1 == 0) == x.is_integer(), 'remainder')
