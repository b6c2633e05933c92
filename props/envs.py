"""Environment collaborators of the wrapper properties: arbitrary results, every call recorded."""
from props.lib import *
from pyvc import models, gymmodel, npmodel as N


def mods():
    return gymmodel.add(models.base_models())


W = world('gym', models=mods)


def info_any(name='info'):
    """an info dict without the flag, or with an arbitrary one; plus some other entry"""
    d = PDict([('other', fresh_obj('other'))])
    nr = False
    if choose(2):
        nr = fresh_bool('needs_reset')
        d['needs_reset'] = nr
    return d, nr


class Ale(Obj):
    def __init__(self, e):
        self.e = e

    def lives(self):
        return self.e.lives_now


class Env(Obj):
    """counters and last values are heap locations, so loops over the environment are summarised"""

    def __init__(self, obs=None, vary_info=True):
        self.action_space, self.observation_space = Obj(), Obj()
        self.reward_range, self.metadata = (0, 1), PDict()
        self.spec = fresh_obj('spec')
        self.n_step = self.n_reset = 0
        self.make_obs = obs or (lambda: fresh_obj('obs'))
        self.vary_info = vary_info
        self.last_action = fresh_obj('a0')
        self.action_ok = lambda a: None
        self.obs, self.r, self.done, self.nr = fresh_obj('o0'), fresh_real('r0'), fresh_bool('d0'), fresh_bool('n0')
        self.info = PDict([('needs_reset', False), ('other', fresh_obj('other'))])
        self.__dict__['_pvghost_info'] = self.info
        self.lives_now = fresh_int('lives_before', 0)
        self.ale = Ale(self)
        self.calls = PList()
        self.reset_kw = None

    @property
    def unwrapped(self):
        return self

    def step(self, a):
        heap.pure_guard('env.step')
        self.action_ok(a)
        self.n_step = self.n_step + 1
        self.last_action = a
        self.obs, self.r, self.done = self.make_obs(), fresh_real('r'), fresh_bool('done')
        if self.vary_info:
            info, self.nr = info_any()
        else:
            # one info object, updated in place (the environment may do that)
            self.nr = fresh_bool('needs_reset')
            info = self.info
            info['needs_reset'] = self.nr
        self.__dict__['_pvghost_info'] = info
        self.lives_now = fresh_int('lives', 0)
        self.on_step()
        return self.obs, self.r, self.done, info

    def on_step(self):
        pass

    def on_reset(self):
        pass

    def reset(self, **kw):
        heap.pure_guard('env.reset')
        self.n_reset = self.n_reset + 1
        self.__dict__['_pvghost_kw'] = kw
        self.obs = self.make_obs()
        self.lives_now = fresh_int('lives', 0)
        self.on_reset()
        return self.obs

    def render(self, *a, **k):
        heap.pure_guard('env.render')
        self.calls.append('render')
        self.__dict__['_pvghost_render'] = (a, k)
        return self.__dict__.setdefault('_pvghost_rret', fresh_obj('rendered'))

    def close(self, *a, **k):
        heap.pure_guard('env.close')
        self.calls.append('close')
        return None

    def seed(self, s=None):
        heap.pure_guard('env.seed')
        self.calls.append('seed')
        self.__dict__['_pvghost_seed'] = s
        return self.__dict__.setdefault('_pvghost_sret', fresh_obj('seeded'))


def driver():
    import os
    return W.load_foreign('pv_drivers', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'drivers.py'))
