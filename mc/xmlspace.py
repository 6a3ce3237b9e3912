"""Run one model document on the real code and compare byte for byte."""
from mc import core, xmlmodel
from mc.core import Violation, outcome
from mc.xmlmodel import Interp, Undefined, src

kajiki = core.setup_repo()
from kajiki import XMLTemplate, MockLoader  # noqa: E402


def show_env(env):
    return ', '.join('%s=%.80r' % kv for kv in sorted(env.items(), key=lambda kv: kv[0]))


def model(root, env, **opt):
    """Model output, or None when the program is outside of the space."""
    try:
        m = Interp(root, env, **opt)
        return m.render(), m.steps
    except (Undefined, NameError, UnboundLocalError):
        return None


def check_doc(root, st, envs=({},), mode='xml', strip=False, cdata_scripts=True, source=None,
              prolog=(), tpl_opts=None, model_env=None):
    """Compile once, render in every environment, compare with the model.

    Returns the number of environments in which the program is defined."""
    opt = dict(mode=mode, strip=strip, cdata_scripts=cdata_scripts, prolog=prolog)
    wants = []
    for env in envs:
        w = model(root, env, **opt)
        if w is not None:
            wants.append((env, w))
    if not wants:
        st.skipped += 1
        return 0
    if source is None:
        source = ''.join(src(n) for n in tuple(prolog) + (root,))
    kw = dict(tpl_opts or {})
    if mode != 'xml':
        kw['mode'] = mode
    if strip:
        kw['strip_text'] = True
    if not cdata_scripts:
        kw['cdata_scripts'] = False
    try:
        tpl = XMLTemplate(source, **kw)
    except Exception as e:
        raise Violation('a valid template does not compile: %s: %s' % (
            type(e).__name__, str(e)[:300]), source=source, options=repr(kw))
    dtd = '<!DOCTYPE html>\n' if mode == 'html5' else ''
    for env, (want, steps) in wants:
        try:
            got = tpl(dict(env)).render()
        except Exception as e:
            got = '%s: %s' % (type(e).__name__, str(e)[:300])
        st.traces += 1
        st.steps += steps
        if got != dtd + want:
            raise Violation('output differs from the reference interpretation', source=source,
                            options=repr(kw), context=show_env(env), expected=dtd + want,
                            observed=got)
        outcome(st, got)
    return len(wants)
