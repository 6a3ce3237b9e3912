#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=hook)))

p('C01', 'Interpolated values are escaped exactly once',
  'In a markup template, whatever value an expression produces - in text, in an attribute, through py:content, py:replace, py:attrs, inside a loop, function, block or included template, in xml and html modes - the rendered output, once its character references are decoded, contains exactly str(value) at that place and the value can never open, close or add a tag, attribute or comment. None renders as nothing. A value is escaped once, never twice, also when it reaches an attribute through a template function.',
  ['inputs', 'programs', 'configurations'],
  'all strings up to a length over the markup-significant alphabet, long strings around buffer-like sizes, all value types, times every interpolation site, times every output mode',
  'test_literal, test_escape_attr_values and test_auto_escape try four literal strings at three sites; no test varies the value, the site and the mode together, and none passes an escaped value through a function into an attribute.',
  ['kajiki/template.py', 'kajiki/ir.py', 'kajiki/xml_template.py'],
  [('_Template._escape / _render_attrs / _collect', 'kajiki/template.py'), ('ExprNode / AttrNode / AttrsNode code generation', 'kajiki/ir.py'), ('_TextCompiler.expr (safe flag in attributes)', 'kajiki/xml_template.py')],
  ['render()'])
p('C02', 'Trusted markup is emitted verbatim every time it is used',
  'A value marked as trusted - literal(text), Markup(text), an object offering __html__, or the result of a template function or block - is inserted into text content without any escaping or alteration. The same literal, Markup or __html__ value may be used any number of times, in one rendering or in several, and yields the same text each time; in text templates without autoescaping every value is emitted as str(value), and None as nothing.',
  ['inputs', 'programs', 'histories'],
  'all trusted-value kinds, all sequences of uses up to a bound (same variable used n times, across loops, functions, with-blocks, renderings), all short strings of markup characters',
  'test_literal uses each trusted value once in a fresh template; re-use, sharing between renderings and mixing with untrusted values are never exercised.',
  ['kajiki/util.py', 'kajiki/template.py'],
  [('literal / flattener', 'kajiki/util.py'), ('_Template._escape', 'kajiki/template.py')],
  ['render()'], state=[('flattener.iterator', 'the underlying text source of a trusted value', 'kajiki/util.py')])
p('C03', 'Output is well-formed and mirrors the static template',
  'Whenever an XML template without trusted markup compiles and renders in xml mode, the output is a well-formed XML document. Everything static within the root element of the template - element structure, attribute names and values, text with its whitespace, CDATA sections, preserved comments - appears in the output unchanged and in place, up to sorting of attributes, empty-element syntax and padding inside comments; comments starting with "!" disappear. Script and style contents are kept character for character. With text stripping enabled only leading and trailing whitespace of text runs (including script and style text) disappears.',
  ['inputs', 'programs', 'configurations'],
  'all document trees up to a size over element, attribute, text, whitespace, entity, comment, CDATA, script and style node kinds, times strip_text, cdata_scripts and mode',
  'Each node kind is tested by one or two hand-picked documents; adjacency and nesting of node kinds (CDATA next to text next to comments, whitespace runs, comments before the root) is not explored.',
  ['kajiki/xml_template.py', 'kajiki/ir.py', 'kajiki/html_utils.py', 'kajiki/entities.py'],
  [('_Parser SAX handlers', 'kajiki/xml_template.py'), ('_DomTransformer (merge, extract spaces, strip)', 'kajiki/xml_template.py'), ('_Compiler._compile_xml', 'kajiki/xml_template.py'), ('optimize', 'kajiki/ir.py')],
  ['render()'])
p('C04', 'Conditional and loop directives render what they say',
  'For any nesting of py:if, py:else, py:switch, py:case, py:else and py:for in a markup template, the output is that of the obvious interpretation: the body of a true py:if, otherwise its py:else; the first matching py:case, otherwise the py:else of the innermost enclosing switch; the body of py:for once per item in order with the loop variable bound. Writing a directive as an attribute of an element is equivalent to wrapping that element in the directive element, and several directive attributes on one element nest in the fixed order def, call, case, else, for, if, switch, with, replace, block. Empty directive bodies render nothing.',
  ['programs', 'inputs'],
  'all directive trees up to a size bound, in attribute and element form, times all small environments',
  'TestSwitch, TestElse and TestExpand contain about ten fixed templates, none with a switch inside a case, in a loop inside a switch, or with directives combined on one element and rendered.',
  ['kajiki/xml_template.py', 'kajiki/ir.py', 'kajiki/template.py', 'kajiki/markup_template.py'],
  [('_DomTransformer._expand_directives', 'kajiki/xml_template.py'), ('_compile_if/_else/_switch/_case/_for', 'kajiki/xml_template.py'), ('IfNode/ElseNode/SwitchNode/CaseNode/ForNode', 'kajiki/ir.py'), ('_push_switch/_pop_switch/_case', 'kajiki/template.py')],
  ['render()'], state=[('_switch_stack', 'values of the enclosing switches', 'kajiki/template.py')])
p('C05', 'py:with bindings are confined to their block',
  'Inside a py:with block each listed name has the value of its assignment, assignments being evaluated left to right and able to use earlier ones. When the block ends, every listed name that had a value before the block - from an outer py:with, a loop, a function argument or a Python block of the same function body, or from the rendering context - has that value again. This holds for any nesting of py:with with loops, conditions, switches, functions, call blocks and attributes.',
  ['programs', 'inputs'],
  'all nestings up to a size bound of with-blocks (one or two variables, all name collisions) with the other directives, observing the variables before, inside and after each block',
  'TestWith nests two blocks once; no test restores a loop variable, an argument or a context variable, nor uses py:with inside functions, call bodies or switches.',
  ['kajiki/ir.py', 'kajiki/template.py', 'kajiki/xml_template.py'],
  [('WithNode', 'kajiki/ir.py'), ('_push_with/_pop_with', 'kajiki/template.py')],
  ['render()'], state=[('_with_stack', 'saved values of shadowed names', 'kajiki/template.py')])
p('C06', 'Template functions and call blocks behave like closures',
  'A function defined by py:def can be called from anywhere in the template any number of times with positional, keyword and default arguments, recursively and from attributes, and inserts its rendered body at the place of the call; a function defined inside another sees the enclosing arguments. py:call passes its body as a callable that the function may invoke zero or more times with arguments, evaluated in the scope where py:call appears. Module-level Python blocks are visible in every function, other Python blocks only in the body they appear in.',
  ['programs', 'inputs'],
  'all programs up to a bound built from definitions, nested definitions, calls, call blocks, loops and Python blocks, in both template languages',
  'TestFunction, TestCall, TestClosure and TestPython each hold one or two templates; several call blocks in one template, repeated or zero invocations, nested call blocks and recursion are not covered.',
  ['kajiki/xml_template.py', 'kajiki/ir.py', 'kajiki/template.py', 'kajiki/util.py', 'kajiki/text.py'],
  [('_compile_def/_compile_call/_compile_pi', 'kajiki/xml_template.py'), ('DefNode/InnerDefNode/CallNode/PythonNode', 'kajiki/ir.py'), ('TplFunc', 'kajiki/template.py'), ('flattener, NameGen', 'kajiki/util.py')],
  ['render()'])
p('C07', 'Attribute-level directives produce exactly the specified tags',
  'An attribute whose interpolated parts are all None is omitted and otherwise holds the concatenation of its parts; py:attrs adds the given mapping or list of pairs, leaving out None values and treating True and False for HTML boolean attributes as presence or absence; attributes are emitted in sorted order within each group. py:strip removes the tags but keeps the content when its condition is true or empty, and keeps both otherwise; py:content replaces the content and keeps the element; py:replace replaces the element. In html modes boolean attributes are minimised.',
  ['inputs', 'programs', 'configurations'],
  'all combinations of static, interpolated and py:attrs attributes over a small value domain (None, booleans, numbers, empty and ordinary strings), times strip/content/replace, times mode',
  'TestAttributes checks a dozen fixed tags; the product of attribute kinds, values, strip conditions and modes is untested.',
  ['kajiki/xml_template.py', 'kajiki/ir.py', 'kajiki/template.py', 'kajiki/html_utils.py'],
  [('_compile_xml', 'kajiki/xml_template.py'), ('AttrNode/AttrsNode', 'kajiki/ir.py'), ('_render_attrs/_collect', 'kajiki/template.py')],
  ['render()'])
p('C08', 'Expressions in text are recognised and evaluated as Python',
  'In text and attributes of both template languages, ${expr} is replaced by the value of the Python expression between the braces, whatever strings, nested braces, quotes, operators, dollar signs, comparison signs and (where Python allows them) line breaks it contains; $name and $name.attr are replaced by the value of the dotted name (a dot not followed by a name is text); $$ is a literal dollar sign. In markup templates a dollar sign followed by anything else is literal text. All surrounding text is reproduced unchanged.',
  ['inputs', 'programs'],
  'all sequences up to a bound over an alphabet of expression forms, dollar forms and delimiters, at text, attribute, CDATA, script and text-template positions',
  'TestBracketsInExpression and TestSimple contain around twenty fixed strings; adjacency of forms and expressions containing dollar signs, comparison operators or newlines is mostly untested.',
  ['kajiki/xml_template.py', 'kajiki/text.py'],
  [('_TextCompiler', 'kajiki/xml_template.py'), ('_Scanner', 'kajiki/text.py')],
  ['render()'])
p('C09', 'Text templates render directives and whitespace as documented',
  'A text template renders its text verbatim except that a backslash before a line break joins the lines and before any other character is dropped, a directive on its own line starting with % leaves no output (nor do blank lines right before it), {%- removes whitespace at the start of its line and -%} removes the blanks after it. %if, %else, %switch, %case, %for, %def, %call, %py, %block and their {%...%} forms have the obvious semantics in any nesting, and the two forms are interchangeable. No escaping is applied unless autoescaping is on.',
  ['programs', 'inputs'],
  'all directive trees up to a size bound times every choice of line form, brace form and whitespace-trimming form per directive, times small environments',
  'test_text has about twenty fixed templates; mixed forms, nesting, trimming at the ends of the source and every combination of switch/case/else are not covered.',
  ['kajiki/text.py', 'kajiki/ir.py'],
  [('_Scanner', 'kajiki/text.py'), ('_Parser', 'kajiki/text.py'), ('_unescape_newlines', 'kajiki/text.py')],
  ['render()'])
p('C10', 'Inheritance resolves blocks and functions child-first',
  'For any chain of templates linked by extends, rendering the last one renders the layout of the root with every block and function replaced by the definition nearest to the rendered template; parent_block() gives the next definition up the chain, self. the nearest definition, local. the template where the reference is written, parent. and child. the neighbouring template. Definitions that are not overridden are inherited, nested blocks can be overridden separately, and rendering a child never changes what its parents or siblings render.',
  ['programs', 'histories'],
  'all chains up to depth 4 times all assignments of which template defines or overrides which block/function and how it refers to the others, in XML and text syntax, times all orders of rendering the members',
  'TestExtends has one three-level chain and one two-level block override; the combinations of levels, overriding sets and references are not explored.',
  ['kajiki/template.py', 'kajiki/xml_template.py', 'kajiki/text.py', 'kajiki/ir.py'],
  [('_Template._extend', 'kajiki/template.py'), ('_compile_extends/_compile_block/autoblocks', 'kajiki/xml_template.py'), ('_parse_extends/_parse_block', 'kajiki/text.py'), ('ExtendNode', 'kajiki/ir.py')],
  ['render()'], state=[('__globals__', 'names visible to the template functions of one instance', 'kajiki/template.py')])
p('C11', 'Included and imported templates act as self-contained parts',
  'py:include / %include inserts exactly what the included template renders on its own with the same context, without a document type, however often and however deeply it is included, in loops, conditions, functions and blocks. py:import / %import makes the functions of the other template callable from there on under the alias or, by default, the base name of the file, without rendering its body. Names defined in the including template never replace the included template\'s own functions and blocks, and the including template and the caller\'s context are not altered; only an import binds its alias, in the template where it is written (and those extending it that have no such alias of their own).',
  ['programs', 'histories'],
  'all include/import graphs up to a bound (depth 3, repeated and mixed include/import of templates that define colliding names), placed at every kind of site, with in-memory and file loaders',
  'TestImport includes one template once with an in-memory loader and imports one library; collisions, repetition, chains and file-based text includes are not tested.',
  ['kajiki/template.py', 'kajiki/loader.py', 'kajiki/ir.py', 'kajiki/text.py', 'kajiki/xml_template.py'],
  [('_Template._import', 'kajiki/template.py'), ('IncludeNode/ImportNode', 'kajiki/ir.py'), ('Loader.import_, default_alias_for', 'kajiki/loader.py')],
  ['render()'])
p('C12', 'File-based loaders always serve the current template source',
  'With reloading on, loading a template by name after any history of creating, changing, replacing, breaking, repairing, shadowing and deleting files returns a template that renders the file content currently found first on the search path, and rendering likewise uses the current version of every extended, included or imported template; a file unchanged since it was last loaded is not compiled again. With reloading off the first successfully loaded version is kept. A missing template raises an I/O error, and a failed load never leaves a wrong or stale template behind.',
  ['histories', 'fault_sequences', 'configurations'],
  'all sequences up to a depth of file-system events (write with newer or older time stamp, break, repair, delete, create in an earlier directory) and load/render operations on two directories and two linked templates, for FileLoader, PackageLoader and the Pyramid loader, reload on and off',
  'The tests load fixed files once; no test ever changes a file after loading it.',
  ['kajiki/loader.py', 'kajiki/integration/pyramid.py'],
  [('FileLoader.import_/_load/_filename', 'kajiki/loader.py'), ('Loader.import_ cache', 'kajiki/loader.py'), ('PackageLoader._filename', 'kajiki/loader.py'), ('PyramidKajikiLoader.import_', 'kajiki/integration/pyramid.py')],
  ['import_()', 'load()', 'render()'],
  state=[('modules', 'compiled templates by name', 'kajiki/loader.py'), ('_timestamps', 'modification times at load', 'kajiki/loader.py')])
p('C13', 'Loading, compiling and rendering are safe from several threads',
  'When several threads load templates from one loader, compile templates, or render instances of the same template class with different contexts, under every interleaving no operation fails and each returns what it would have returned alone. A file replaced while it is being loaded is served in its old or its new version, and in its new version by every load that starts after the replacement.',
  ['schedules'],
  'all interleavings with a bounded number of preemptions at line (and, in the loader, bytecode) granularity of 2-3 threads with 1-2 operations each on shared loaders, template classes and the compiler',
  'No test uses threads; the schedules that expose a race need a preemption at one particular line.',
  ['kajiki/loader.py', 'kajiki/template.py', 'kajiki/util.py', 'kajiki/ir.py', 'kajiki/xml_template.py', 'kajiki/text.py'],
  [('FileLoader.import_, Loader.import_', 'kajiki/loader.py'), ('NameGen thread-local state', 'kajiki/util.py'), ('per-instance globals, TplFunc.bind_instance', 'kajiki/template.py')],
  ['import_()', 'render()'],
  state=[('modules/_timestamps', 'shared loader cache', 'kajiki/loader.py'), ('NameGen.lcl', 'per-thread name generator', 'kajiki/util.py')])
p('C14', 'Renderings are independent and repeatable',
  'What a template instance renders depends only on its template and context: not on earlier or later renderings of the same instance, nor on earlier, later or simultaneously iterated renderings of other instances of the same or other templates, nor on renderings that failed or were abandoned half-way, nor on how many templates were compiled before. Rendering never alters the caller\'s context dictionary; iterating an instance yields only strings whose concatenation equals render(), and an instance can be rendered repeatedly with the same result.',
  ['histories', 'schedules'],
  'all operation sequences up to a depth over: instantiate, render, advance a streaming iterator by one chunk, abandon it, render a failing instance, compile another template - on several instances of templates that use every stateful feature (with, switch, call, extends, include, import, blocks)',
  'Tests render each instance once, to completion, one at a time.',
  ['kajiki/template.py', 'kajiki/util.py', 'kajiki/ir.py'],
  [('_Template.__init__ / __iter__ / render', 'kajiki/template.py'), ('flattener', 'kajiki/util.py'), ('NameGen', 'kajiki/util.py')],
  ['render()', '__iter__'],
  state=[('_with_stack, _switch_stack, __globals__', 'per-instance rendering state', 'kajiki/template.py')])
p('C15', 'Extracted messages are exactly the ones translated at render time',
  'For every markup template, the set of messages found by message extraction (each with the line where it begins) equals the set of messages that rendering may pass to gettext for its static text: every non-blank piece of text between tags and expressions outside script and style, as it appears in the output, without the whitespace that surrounds the run of text it belongs to, and never attribute values, comments, expressions\' values or markup; with the extract_python option also the messages of gettext calls in interpolations, py:content and py:replace. Rendering emits the translation in place of each message and leaves everything else, including surrounding whitespace, unchanged; with gettext absent or identity the output is the untranslated one. The gettext function in the context takes precedence over the loader\'s globals, which take precedence over the library default, also in extended and included templates.',
  ['programs', 'inputs', 'configurations'],
  'all document trees up to a size over text, whitespace, expression, directive, CDATA, script, comment and attribute nodes, times strip_text, times three translation functions and three ways of installing them',
  'TestTranslation compares extraction and rendering on two documents.',
  ['kajiki/i18n.py', 'kajiki/xml_template.py', 'kajiki/ir.py', 'kajiki/template.py'],
  [('extract', 'kajiki/i18n.py'), ('TranslatableTextNode / make_text_node', 'kajiki/ir.py, kajiki/xml_template.py'), ('_Template._gettext', 'kajiki/template.py')],
  ['render()', 'i18n.extract()'])
p('C16', 'Output mode and document type follow the declaration and options',
  'The rendering mode is the mode argument if given, else the one of the recognised document type (HTML 4 and HTML5 give HTML, XHTML gives XML), else XML. In html modes the void elements (area, base, br, col, hr, img, input, link, meta, param) have no end tag and no slash, every other element has an end tag; in xml mode childless elements are self-closed except script. The document type declaration is emitted verbatim as the first line, html5 mode supplies one when absent, and fragments, included templates and child templates never emit one.',
  ['configurations', 'inputs', 'programs'],
  'all known document types (with case and white-space variations) and unknown ones, times mode argument, times fragment flag, times root/child/included role, times all HTML element names with and without content, times loader kind and file extension',
  'The tests cover two document types, three elements and no product of mode, document type, fragment flag and loader.',
  ['kajiki/doctype.py', 'kajiki/xml_template.py', 'kajiki/html_utils.py', 'kajiki/loader.py'],
  [('DocumentTypeDeclaration.matching / extract_dtd', 'kajiki/doctype.py'), ('_Compiler.__init__, compile, _compile_xml', 'kajiki/xml_template.py'), ('extension_map', 'kajiki/loader.py')],
  ['render()'])
p('C17', 'HTML and XML entities mean their characters everywhere',
  'Every HTML5 named character reference with a semicolon, every predefined XML entity and every decimal or hexadecimal character reference valid in XML, written in text, in an attribute value or in script or style text, comes out as its character(s) or an equivalent reference, next to any other content. An ampersand reference that is unknown, in text or in an attribute value, is reported as a template error instead of being dropped; in CDATA sections, comments and Python blocks the same letters are no reference and stay as written.',
  ['inputs', 'configurations'],
  'all named references times every position kind times neighbours, and all numeric references from a boundary-covering set',
  'test_html_entities checks nbsp and hellip in text only, out of more than two thousand references.',
  ['kajiki/entities.py', 'kajiki/xml_template.py'],
  [('skippedEntity and the substituted DTD', 'kajiki/xml_template.py'), ('html5 table, unescape', 'kajiki/entities.py')],
  ['render()'])
p('C18', 'Run-time errors point at the template file and line',
  'When evaluating an expression, directive or attribute raises an exception during rendering, the exception propagates unchanged and the innermost template frame of its traceback names the template\'s file and the line where that expression, or the start tag, directive or Python block that carries it, begins (for a multi-line expression, one of its lines). This holds for any layout of the template: before or after functions, blocks, multi-line expressions and long stretches of text, and inside functions, call blocks, attributes, included and parent templates.',
  ['programs', 'inputs'],
  'all templates up to a bound built from line-shifting elements (text runs of various line counts including more than 127 and 255 lines, multi-line expressions, definitions, blocks) with the failing site at every possible position and of every kind, in XML and text syntax',
  'test_debug only asks that some frame names the file and test_code_error checks one line of one file.',
  ['kajiki/template.py', 'kajiki/lnotab.py', 'kajiki/ir.py', 'kajiki/xml_template.py', 'kajiki/text.py'],
  [('from_ir / TplFunc.annotate_lnotab', 'kajiki/template.py'), ('lnotab encoder/decoder', 'kajiki/lnotab.py'), ('lineno annotation', 'kajiki/xml_template.py, kajiki/text.py')],
  ['traceback of render()'])
p('C19', 'Invalid templates are rejected at compile time with their location',
  'A markup template that is not well-formed, has an unterminated or invalid ${} expression, a py:else that neither directly follows a py:if nor belongs to a py:switch, or foreign content in a py:switch (or a py:switch on a tag), never compiles: a template error (XMLTemplateError or KajikiSyntaxError) is raised whose message, file name and line number identify the template and the line of the offending construct. The same holds for an invalid or unterminated ${} expression in a text template. An invalid Python fragment in a directive or Python block is always reported as a template error, too. Valid templates are never rejected this way.',
  ['programs', 'inputs'],
  'all single-fault mutations of all small valid templates (every deletion or replacement of one token; every bad expression at every site; every misplaced directive), at every line offset',
  'TestErrorReporting, TestElse, TestSwitch and TestBracketsInExpression contain nine fixed invalid templates and mostly check message fragments.',
  ['kajiki/xml_template.py', 'kajiki/template.py'],
  [('XMLTemplateParseError/XMLTemplateCompileError', 'kajiki/xml_template.py'), ('KajikiSyntaxError', 'kajiki/template.py'), ('_get_braced_expr', 'kajiki/xml_template.py')],
  ['XMLTemplate()'])
p('C20', 'The framework plugins render what direct use renders',
  'The Pyramid renderer is registered once, for every configured file extension, and renders any template named by an asset specification in the configured mode (html5 by default) exactly as direct use of the template with the same values does; the values of the view win over those of the framework, a fragment never gets a document type, a view result that is no dictionary is reported as ValueError. The TurboGears 1 plugin renders templates given by dotted name, as a class or from a string as direct use does, in the forced mode if one is configured and in the mode of the file extension otherwise, with the extra variables (which win) of that call, reloading changed files unless told not to, through the configured loader class; a loader class that cannot be imported is reported as ConfigurationError. No value or failure of one rendering shows in another.',
  ['configurations', 'histories', 'inputs'],
  'all products of the settings of both plugins times values and call forms, and all short histories of requests (good, failing, bad results, missing templates, changed files)',
  'No test of the suite imports kajiki.integration at all.',
  ['kajiki/integration/pyramid.py', 'kajiki/integration/turbogears1.py', 'kajiki/loader.py'],
  [('includeme, PyramidKajikiLoader.__call__ and fragment', 'kajiki/integration/pyramid.py'), ('XMLTemplateEnginePlugin', 'kajiki/integration/turbogears1.py')],
  ['the renderer called by Pyramid', 'XMLTemplateEnginePlugin.render()'])
p('C21', 'Templates written in Python behave like compiled ones',
  'kajiki.Template turns any object that holds functions marked with kajiki.expose (a class, also with inherited functions, an instance, a module) into a template; functions that are not exposed are no part of it. Rendering gives the text of everything the functions yield, in order: the results of other template functions in their place, whatever their depth, None as nothing, every other value (0, False and the empty string included) as its text. Functions take their arguments, defaults, keywords and *args exactly as Python functions do, see the values of the context and each other, and the Python, markup and text templates extend, import and include each other with the same results.',
  ['programs', 'inputs', 'configurations'],
  'all bodies of a few statements over all kinds of values and calls, all parameter lists times all calls, all containers times subsets of exposed functions, chains and imports mixing the three kinds of templates',
  'test_runtime.py has eight fixed templates without defaults, None, keywords or inherited functions, and never mixes kinds.',
  ['kajiki/template.py', 'kajiki/util.py'],
  [('Template, TplFunc', 'kajiki/template.py'), ('flattener, expose', 'kajiki/util.py'), ('_Template._extend, _import', 'kajiki/template.py')],
  ['kajiki.Template', 'kajiki.expose', 'render()'])
p('C22', 'Names and built-in functions mean the same in every part of a template',
  'Wherever it is written - text, attributes, directive arguments, functions, blocks, call bodies, Python blocks, and in every template of a composition - a name that is not bound locally has the value given in the context of the rendering (false values and None included), else that of the module-level Python blocks of the template in which it is written, else that of the base_globals it was compiled with, else the built-in of Kajiki or Python; a name without a value raises NameError. defined(name) says whether context, Python blocks or globals have the name, value_of(name, default) gives that value, or else the default or None, for any key of the context. Except for the names of the language, getattr, locals and names starting with two underscores any name can be used as a variable without disturbing the template.',
  ['inputs', 'programs', 'configurations'],
  'all places of a name times all ways to look at it times all subsets of sources times values; every built-in name, library name and letter as a variable; graphs of templates times subsets with a value of their own',
  'test_xml.py looks at defined() and value_of() once each, in the body of one template.',
  ['kajiki/template.py', 'kajiki/ir.py'],
  [('_Template.__init__ (order of the sources)', 'kajiki/template.py'), ('from_ir (base_globals)', 'kajiki/template.py'), ('_Template._import, _borrow', 'kajiki/template.py')],
  ['render()', 'defined()', 'value_of()'])

p('C23', 'Expressions are evaluated once, in order, and only where control reaches them',
  'Rendering evaluates every interpolation, directive argument, attribute value and Python block exactly once each time control reaches its place, in the order of the template (the directives of an element in their fixed order, then py:strip, the attributes in the order of the output, py:attrs, then the content), and nothing else: not what is in branches and cases that are not taken, functions and blocks that are not used, content that is replaced or attributes of an element whose tag is stripped. The items of py:for are taken one by one, as the body is rendered; module-level Python blocks run once, at compile time. So expressions with side effects, or with values that change, give the result that reading the template from top to bottom suggests, in markup and text templates and in templates that include, import or extend others.',
  ['programs', 'inputs', 'histories'],
  'all programs up to a size in which every place records its evaluation, times all histories of the conditions; the journal of each rendering compared with that of the reference interpreter',
  'The expressions of the tests have no side effects.',
  ['kajiki/xml_template.py', 'kajiki/ir.py', 'kajiki/template.py', 'kajiki/text.py'],
  [('_compile_xml, _compile_node', 'kajiki/xml_template.py'), ('code generation', 'kajiki/ir.py'), ('_iter_attrs, _push_switch', 'kajiki/template.py')],
  ['render()'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))
