"""Stand-in: what pylab offers."""
from matplotlib.pyplot import *  # noqa: F401,F403
from matplotlib.pyplot import savefig  # noqa: F401
