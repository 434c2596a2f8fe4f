"""Stand-in for matplotlib.pyplot: every call is recorded; take() hands the record over as text."""
_log = []


class _Figure:
    number = 1


def _flat(a):
    if isinstance(a, str):
        return 's ' + a.encode().hex() + '.'
    if isinstance(a, bool):
        return 'b %d' % a
    if hasattr(a, 'tolist'):  # arrays view memory of the caller: copied here
        a = a.tolist()
    if isinstance(a, (list, tuple)):
        return 'v %d %s' % (len(a), ' '.join(repr(float(x)) for x in a))
    return 'n ' + repr(float(a))


def _record(name, a, k):
    _log.append('%s %d %s' % (name, len(a), ' '.join(_flat(x) for x in a)))


def take():
    s = '\n'.join(_log)
    del _log[:]
    return s


_DEF = '''
def {0}(*a, **k):
    _record('{0}', a, k)
    return {1}
'''
for _n in ('show close draw pause fignum_exists plot quiver semilogx semilogy loglog fill fill_between hist scatter subplot legend xlim ion ginput '
           'ylim title axis xlabel ylabel xticks yticks grid clf errorbar annotate tight_layout stem xkcd text suptitle bar subplots_adjust savefig '
           'colorbar imshow boxplot contour axvline axhline axvspan margins subplot2grid barh clabel').split():
    exec(_DEF.format(_n, '[0.0, 0.0]'))
exec(_DEF.format('figure', '_Figure()'))
