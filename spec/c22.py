"""C22: rewinding exposes an earlier frame and restores exactly."""
from base import *


class Boom(Exception):
    pass


def push(kind, i):
    if kind == 'plain':
        return pilo.ctx(n=i)
    if kind == 'key':
        return pilo.ctx(src=choose('k%d' % i, i, None), n=i)
    if kind == 'source':
        return pilo.ctx(src=DefaultSource({'n': i}), n=i)
    return pilo.ctx.reset()


class snap(object):

    def __init__(self):
        self.stack = list(pilo.ctx.stack)
        self.path = pilo.ctx.src_path
        self.paths = []
        for frame in self.stack:
            p = frame.get('src_path')
            if p is not None:
                self.paths.append((p, [part.key for part in p.parts]))

    def same_stack(self, stack):
        if len(stack) != len(self.stack):
            return False
        for a, b in zip(stack, self.stack):
            if a is not b:
                return False
        return True

    def restored(self):
        return self.same_stack(pilo.ctx.stack) and pilo.ctx.src_path is self.path and self.same_paths()

    def same_paths(self):
        for p, keys in self.paths:
            if [part.key for part in p.parts] != keys:
                return False
        return True


def build_stack(n):
    """a source and then n frames of any kind; (closers, snapshots after each push)"""
    snaps, closers = [], []
    closers.append(pilo.ctx(src=DefaultSource({'root': 1}), n=-1))
    snaps.append(snap())
    for i in range(n):
        kind = choose('plain', 'key', 'source')
        closers.append(push(kind, i))
        snaps.append(snap())
    return closers, snaps


def rewinding(n):
    base = snap()
    closers, snaps = build_stack(n)
    before = snap()
    at = choose(*range(-1, n))
    asked = []

    def stop(frame):
        asked.append(frame)
        return frame.get('n') == at
    target = snaps[at + 1]
    fails = choose(True, False)
    try:
        with pilo.ctx.rewind(stop):
            check(target.same_stack(pilo.ctx.stack), 'exactly the frames above the stop frame are hidden')
            check(pilo.ctx.src_path is target.path, 'the path of the stop frame becomes current')
            check([p.key for p in pilo.ctx.src_path.parts] == target.paths[-1][1],
                  'the current path has the parts it had at that frame')
            check(pilo.ctx.n == at, 'the variables of the stop frame are visible')
            if choose(True, False):
                with pilo.ctx(src='more', n='more'):
                    check(pilo.ctx.n == 'more', 'frames can be pushed in between')
            if fails:
                raise Boom('x')
    except Boom:
        pass
    check(before.restored(), 'leaving the block puts frames and parts back in the same order')
    for c in reversed(closers):
        c.__exit__(None, None, None)
    check(base.restored(), 'the frames close as usual afterwards')


def spec_rewind_1():
    rewinding(1)


def spec_rewind_2():
    rewinding(2)


def spec_rewind_3():
    rewinding(3)


def spec_deep_rewind_4():
    rewinding(4)


def spec_topmost():
    """several frames satisfy the condition"""
    closers, snaps = build_stack(3)
    before = snap()
    match = choose((0, 1), (1, 2), (0, 2), (-1, 1), (0, 1, 2), (2,))

    def stop(frame):
        return frame.get('n') in match
    top = max(match)
    with pilo.ctx.rewind(stop):
        check(snaps[top + 1].same_stack(pilo.ctx.stack), 'the topmost frame satisfying the condition is the stop frame')
        check([p.key for p in pilo.ctx.src_path.parts] == snaps[top + 1].paths[-1][1], 'with the path it had')
    check(before.restored(), 'everything is put back')


def spec_no_stop():
    """no frame satisfies the condition"""
    closers, snaps = build_stack(choose(0, 1, 2))
    before = snap()
    falsy = choose(False, None, 0)

    def stop(frame):
        return falsy
    try:
        pilo.ctx.rewind(stop)
        fail('a rewind without stop frame raises')
    except pilo.ctx.RewindDidNotStop:
        reach('a rewind without stop frame raises its error')
    check(before.restored(), 'a rewind that fails changes nothing')


def spec_condition_raises():
    closers, snaps = build_stack(2)
    before = snap()
    at = choose(1, 0)

    def stop(frame):
        if frame.get('n') == at:
            raise Boom('x')
        return False
    try:
        pilo.ctx.rewind(stop)
    except Boom:
        reach('an exception of the condition is passed on')
    check(before.restored(), 'a condition that raises changes nothing')


def spec_bottom():
    """the outermost frame of all, in which there is no source"""
    bottom = list(pilo.ctx.stack)
    closers, snaps = build_stack(2)
    before = snap()

    def stop(frame):
        return frame is bottom[0]
    with pilo.ctx.rewind(stop):
        check(len(pilo.ctx.stack) == 1 and pilo.ctx.stack[0] is bottom[0], 'the outermost frame can be exposed')
        check(pilo.ctx.src_path is None, 'there is no path in it')
        if choose(True, False):
            F = form_with(pilo.Field())
            f = F()
            f.map({'a': 1})
            check(f == {'a': 1}, 'mappings can be run in it')
    check(before.restored(), 'and everything is put back')


def spec_nested_rewinds():
    closers, snaps = build_stack(3)
    before = snap()

    def at(i):
        def stop(frame):
            return frame.get('n') == i
        return stop
    with pilo.ctx.rewind(at(1)):
        middle = snap()
        with pilo.ctx.rewind(at(choose(0, -1, 1))):
            pass
        check(middle.restored(), 'a rewind within a rewind restores the first one')
    check(before.restored(), 'which restores the original')


def spec_resets():
    """frames that hide the source"""
    with pilo.ctx(src=DefaultSource({'a': 1}), n=0):
        with pilo.ctx(src='a', n=1):
            with pilo.ctx.reset():
                w = snap()
                at = choose(0, 1)

                def stop(frame):
                    return frame.get('n') == at
                with pilo.ctx.rewind(stop):
                    check(pilo.ctx.src_path is not None, 'a frame below a reset has its source')
                check(w.restored(), 'a reset frame is put back')


def spec_mapping_in_rewound():
    """a mapping inside a rewound context sees the earlier position"""
    x = any_value('x')
    with pilo.ctx(src=DefaultSource({'a': {'b': [1]}, 'v': x}), errors=fields.CollectErrors(), form=None):
        with pilo.ctx(here=True):
            with pilo.ctx(src='a'):
                with pilo.ctx(src='b'):
                    w = snap()

                    def stop(frame):
                        return 'here' in frame
                    with pilo.ctx.rewind(stop):
                        v = pilo.Field('v').map()
                    check(same(v, x), 'a field is mapped from the earlier position')
                    check([p.key for p in pilo.ctx.src_path.parts] == ['a', 'b'], 'the later position is back')
                    check(w.restored(), 'and so are the frames')


def spec_key_kinds():
    """keys of any kind are put back"""
    a, b = choose(None, 0, '', False, 'k'), choose(None, 0, '', 'k')
    with pilo.ctx(src=DefaultSource({}), n=0):
        with pilo.ctx(src=a, n=1):
            with pilo.ctx(src=b, n=2):
                p = pilo.ctx.src_path
                at = choose(0, 1, 2)
                with pilo.ctx.rewind(lambda frame: frame.get('n') == at):
                    check([q.key for q in p.parts] == [a, b][:at], 'keys pushed above the frame are off the path')
                keys = [q.key for q in p.parts]
                check(len(keys) == 2 and keys[0] is a and keys[1] is b, 'keys of any kind are put back')
        check(len(pilo.ctx.src_path) == 0, 'and come off as usual')


def spec_many_frames():
    """over any number of frames"""
    with pilo.ctx(src=DefaultSource({}), n=-1):
        w0 = snap()
        blocks = []
        for i in range(40):
            b = pilo.ctx(src='k%d' % i, n=i)
            b.__enter__()
            blocks.append(b)
        w = snap()
        at = choose(-1, 0, 7, 38)
        with pilo.ctx.rewind(lambda frame: frame.get('n') == at):
            check(pilo.ctx.n == at and len(pilo.ctx.stack) == len(w0.stack) + at + 1, 'a rewind goes over any number of frames')
            check([p.key for p in pilo.ctx.src_path.parts] == ['k%d' % i for i in range(at + 1)], 'and so do the keys')
        check(w.restored(), 'all of them are put back')
