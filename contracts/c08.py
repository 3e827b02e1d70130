from vc.harness import unit

VOIGT = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
POS = {(i, j): k for k, t in enumerate(VOIGT) for i, j in (t, t[::-1])}


@unit('C08', ['crys.tensor2voigt', 'crys.voigt2tensor'])
def single(g):
    """(xx,yy,zz,yz,xz,xy), symmetric tensor back, both round trips"""
    v = g.reals('voigt', (6,), samp=(-3, 3, 1e6))
    v0 = g.snap(v)
    t = g.call('crys.voigt2tensor', v)
    g.shape('tensor shape', t, (3, 3))
    for i in range(3):
        for j in range(3):
            g.ensure('component %d%d' % (i, j), g.close(t[i, j], v0[POS[i, j]]))
            g.ensure('symmetric %d%d' % (i, j), g.same(t[i, j], t[j, i]))
    g.eq('voigt -> tensor -> voigt', g.call('crys.tensor2voigt', t), v0)
    g.unchanged('voigt unchanged', v, v0)
    s = g.reals('tensor', (3, 3), samp=(-3, 3, 1e6))
    s0 = g.snap(s)
    w = g.call('crys.tensor2voigt', s)
    g.shape('voigt shape', w, (6,))
    for k, (i, j) in enumerate(VOIGT):
        g.ensure('entry %d' % k, g.close(w[k], s0[i, j]))
    g.unchanged('tensor unchanged', s, s0)
    for i, j in ((0, 1), (0, 2), (1, 2)):
        g.require(s[i, j] == s[j, i]) if g.sym else s.__setitem__((j, i), s[i, j])
    g.eq('tensor -> voigt -> tensor', g.call('crys.voigt2tensor', g.call('crys.tensor2voigt', s)), s)


@unit('C08', ['crys.tensor2voigt3d', 'crys.voigt2tensor3d'])
def series(g):
    """step by step the single-tensor functions, for any number of steps (also 3 and 6)"""
    n = g.dim('nstep', samp=(1, 8))
    v = g.reals('voigt', (n, 6), samp=(-3, 3, 1e6))
    v0 = g.snap(v)
    t = g.call('crys.voigt2tensor3d', v)
    g.shape('tensor shape', t, (n, 3, 3))
    for i in range(3):
        for j in range(3):
            g.forall('component %d%d' % (i, j), (n,), lambda k: g.close(t[k, i, j], v0[k, POS[i, j]]))
    g.eq('voigt -> tensor -> voigt', g.call('crys.tensor2voigt3d', t), v0)
    g.unchanged('voigt unchanged', v, v0)
    s = g.reals('tensor', (n, 3, 3), samp=(-3, 3, 1e6))
    s0 = g.snap(s)
    w = g.call('crys.tensor2voigt3d', s)
    g.shape('voigt shape', w, (n, 6))
    for q, (i, j) in enumerate(VOIGT):
        g.forall('entry %d' % q, (n,), lambda k: g.close(w[k, q], s0[k, i, j]))
    g.unchanged('tensor unchanged', s, s0)
    b = g.call('crys.voigt2tensor3d', w)
    for i in range(3):
        for j in range(3):
            g.forall('tensor -> voigt -> tensor %d%d' % (i, j), (n,),
                     lambda k: g.implies(s0[k, i, j] == s0[k, j, i], g.close(b[k, i, j], s0[k, i, j]) if i <= j else g.close(b[k, i, j], s0[k, j, i])))
            g.forall('steps as single %d%d' % (i, j), (n,), lambda k: g.close(b[k, i, j], g.call('crys.voigt2tensor', w[k])[i, j]))
