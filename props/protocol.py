"""Protocol monitors: collaborators whose call preconditions are the property."""
from props.lib import *
from pyvc.load import SFmt


class Boom(Exception):
    pass


class BoomInterrupt(KeyboardInterrupt):
    pass


class Monitor(Obj):
    def __init__(self, boom):
        self.boom = boom
        self.armed = bool(boom)
        self.failed = False
        self.error = None

    def call(self):
        heap.pure_guard('collaborator call')
        if self.boom and self.armed and not self.failed and choose(2) == 1:
            self.failed = True
            self.error = BoomInterrupt() if getattr(self, 'two_kinds', True) and choose(2) else Boom()
            raise self.error

    def fresh(self, n):
        return fresh_obj(n)

    def fresh_real(self, n):
        return fresh_real(n)

    def fresh_bool(self, n):
        return fresh_bool(n)


def info_dict(m):
    """an arbitrary info: without the flag, or with an arbitrary one"""
    if getattr(m, 'vary_info', True) and choose(2) == 0:
        return PDict(), False
    b = fresh_bool('needs_reset')
    return PDict([('needs_reset', b)]), b


def path_of(t, suffix, out='out'):
    return SFmt([out, '/', t, suffix]) if core.is_sym(t) else '%s/%s%s' % (out, t, suffix)


class EnvOf(Obj):
    def __init__(self, m):
        self.m = m

    def reset(self):
        return self.m.reset()

    def step(self, a):
        return self.m.step(a)


class AgentOf(Obj):
    def __init__(self, m, hast=False):
        self.m = m
        if hast:
            self.t = fresh_int('agent_t')

    def act_and_train(self, *a, **k):
        return self.m.act_and_train(*a, **k)

    def stop_episode_and_train(self, *a, **k):
        return self.m.stop_episode_and_train(*a, **k)

    def act(self, *a, **k):
        return self.m.act(*a, **k)

    def stop_episode(self, *a, **k):
        return self.m.stop_episode(*a, **k)

    def get_statistics(self):
        return self.m.get_statistics()

    def save(self, d):
        return self.m.save(d)


class HookAt(Obj):
    def __init__(self, m, i):
        self.__dict__['m'] = m
        self.__dict__['i'] = i

    def __call__(self, env, agent, t):
        self.m.hook(self.i, env, agent, t)
