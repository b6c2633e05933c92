"""Model of the parts of gym that chainerrl's wrappers build on (trusted: gym 0.16 delegates exactly like this)."""
from .models import Mod
from . import core, heap
from .core import Unsupported


class Env(object):
    pass


class Wrapper(Env):
    def __init__(self, env):
        self.env = env
        self.action_space = env.action_space
        self.observation_space = env.observation_space
        self.reward_range = env.reward_range
        self.metadata = env.metadata

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return getattr(self.env, name)

    @property
    def spec(self):
        return self.env.spec

    def step(self, action):
        return self.env.step(action)

    def reset(self, **kwargs):
        return self.env.reset(**kwargs)

    def render(self, mode='human', **kwargs):
        return self.env.render(mode, **kwargs)

    def close(self):
        return self.env.close()

    def seed(self, seed=None):
        return self.env.seed(seed)

    @property
    def unwrapped(self):
        return self.env.unwrapped


class ObservationWrapper(Wrapper):
    def reset(self, **kwargs):
        observation = self.env.reset(**kwargs)
        return self.observation(observation)

    def step(self, action):
        observation, reward, done, info = self.env.step(action)
        return self.observation(observation), reward, done, info


class RewardWrapper(Wrapper):
    def step(self, action):
        observation, reward, done, info = self.env.step(action)
        return observation, self.reward(reward), done, info


class ActionWrapper(Wrapper):
    def step(self, action):
        return self.env.step(self.action(action))


class Space(object):
    __pv_obj__ = True


class Box(Space):
    def __init__(self, low, high, shape=None, dtype=None):
        self.low, self.high, self.dtype = low, high, dtype
        self.shape = tuple(low.shape) if shape is None else tuple(shape)


class Discrete(Space):
    def __init__(self, n):
        self.n = n


spaces = Mod('gym.spaces', Box=Box, Discrete=Discrete, Space=Space)
gym = Mod('gym', Env=Env, Wrapper=Wrapper, ObservationWrapper=ObservationWrapper, RewardWrapper=RewardWrapper,
          ActionWrapper=ActionWrapper, spaces=spaces, wrappers=Mod('gym.wrappers'))


class NotInstalled(Mod):
    def __getattr__(self, k):
        raise ImportError('not installed: %s' % k)


def add(d):
    d['cv2'] = NotInstalled('cv2')
    d['gym'] = gym
    d['gym.spaces'] = spaces
    d['gym.wrappers'] = gym.wrappers
    return d
