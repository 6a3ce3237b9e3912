_BASE = ('Explicit-state bounded exhaustive exploration of the real code: every case of every listed '
         'space is compiled and rendered by kajiki and compared with a reference model; '
         'nothing is sampled. ')
TECH = {
 'C01': (_BASE + 'States: value x interpolation site x output mode; oracle: decode the output with an '
         'independent parser and compare with str(value).', 'bounded exhaustive; string length and value set bounds in the evidence'),
 'C02': (_BASE + 'States: use-histories of trusted values (kind x sequence of uses).',
         'bounded exhaustive; histories up to the depth in the evidence'),
 'C03': (_BASE + 'States: document trees up to a size over all node kinds x options; oracle: reference '
         'serializer plus well-formedness.', 'bounded exhaustive; tree size bounds in the evidence'),
 'C04': (_BASE + 'States: directive nestings up to a depth x all truth assignments; oracle: reference '
         'interpreter of the template language, traces replayed on the implementation.', 'bounded exhaustive'),
 'C05': (_BASE + 'States: programs up to a size that bind and read variables; oracle: reference '
         'interpreter with an environment stack.', 'bounded exhaustive'),
 'C06': (_BASE + 'States: programs up to a size of definitions, calls and Python blocks; oracle: '
         'reference interpreter.', 'bounded exhaustive'),
 'C07': (_BASE + 'States: attribute part sequences, py:attrs mappings and py:strip guards x element kind '
         'x mode; oracle: reference serializer.', 'bounded exhaustive'),
 'C08': (_BASE + 'States: token sequences around expressions x position; oracle: reference scanner '
         '(shortest prefix that Python accepts).', 'bounded exhaustive'),
 'C09': (_BASE + 'States: text-template directive trees x spelling x white space; oracle: reference '
         'interpreter of the text syntax.', 'bounded exhaustive'),
 'C10': (_BASE + 'States: inheritance chains x sets of overridden and referenced blocks and functions; '
         'oracle: reference method-resolution model.', 'bounded exhaustive'),
 'C11': (_BASE + 'States: include/import graphs x site x loader; oracle: reference composition model.',
         'bounded exhaustive'),
 'C12': ('Explicit-state model checking of the loader: all histories of file-system and load/render '
         'operations up to a depth from a model of the cache, each history replayed on the real loader '
         'and its result compared with the model after every step.', 'bounded exhaustive'),
 'C13': ('Stateless model checking of the real threads: a controlled scheduler serialises the threads '
         'and enumerates all interleavings up to a preemption bound; oracle: sequential results.',
         'bounded exhaustive in schedules; preemption bound and granularity in the evidence'),
 'C14': ('Stateless exploration of all operation histories up to a depth (instantiate, render, step, '
         'abandon, fail, compile) on the real code; oracle: result in isolation.', 'bounded exhaustive'),
 'C15': (_BASE + 'States: document trees x translation function x installation; oracle: reference '
         'message model for both extraction and rendering.', 'bounded exhaustive'),
 'C16': (_BASE + 'States: full product of document types, mode, fragment flag, role, element, loader; '
         'oracle: table-driven reference serializer.', 'exhaustive over the listed product'),
 'C17': (_BASE + 'States: all named references and boundary numeric references x position.',
         'exhaustive over all named references'),
 'C18': (_BASE + 'States: layouts of line-shifting constructs x failing site; oracle: line number known '
         'by construction.', 'bounded exhaustive'),
 'C19': (_BASE + 'States: all single faults of all small templates; oracle: rejection with known line.',
         'bounded exhaustive'),
 'C20': (_BASE + 'States: product of plugin settings, values and call forms, and histories of requests; oracle: the output '
         'written down as a function of mode, values and file version.', 'bounded exhaustive'),
 'C21': (_BASE + 'States: function bodies, parameter lists x calls, containers, chains mixing Python, markup and text templates; '
         'oracle: the same functions executed by Python and flattened by hand.', 'bounded exhaustive'),
 'C22': (_BASE + 'States: places x ways to look at a name x sources x values, names, graphs of templates; oracle: a table of '
         'precedence.', 'bounded exhaustive'),
 'C23': (_BASE + 'States: programs whose every place records its evaluation x histories of the conditions; oracle: journal of the '
         'reference interpreter.', 'bounded exhaustive'),
}
NA = {}
