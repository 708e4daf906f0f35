"""Helpers for explorer scenarios."""
PRE = '''Object extend [ primError: msg [ MC log: '<ERR:', msg displayString, '>' ] ].
'''


def scen(temps, body, mode=1, gc=0, setup='', pre=''):
    """BODY runs in the main process after exploration starts; it ends with MC end."""
    return PRE + pre + '''
Eval [ | %s |
%s
MC begin: %%BOUND%% mode: %d gc: %d.
%s
MC sched: 0. MC gcMode: 0.
MC end: '.' ]
''' % (temps, setup.rstrip().rstrip('.') + ('.' if setup.strip() else ''), mode, gc, body.rstrip().rstrip('.') + '.')


def bad_end(o):
    """Outcomes that are wrong in every scenario."""
    if o.startswith('CRASH'):
        return 'the virtual machine crashed'
    for t, w in (('|DEADLOCK', 'deadlock: nothing can run'), ('|STEPLIMIT', 'livelock: no end'),
                 ('|EXIT', 'the virtual machine exited')):
        if o.endswith(t):
            return w
    if '<ERR:' in o:
        return 'an error was raised'
    return None
