P('C01', 'A placeholder name resolves to the first namespace that defines it',
  'A dotted name is resolved in the first of local variables, search-list entries in order, module globals and builtins '
  'that has its first component, and never falls through to a later one; each component is taken as a mapping key if '
  'the value is a mapping holding that key, else as an attribute, and with autocalling on functions and methods (never classes or '
  'callable instances) are called with no arguments at every step. A component that does not exist raises NotFound naming that '
  'component, and the C and the pure-Python implementation give the same result through every lookup function and in templates.',
  ['inputs', 'configurations'],
  'all namespace layouts, value kinds at each step, lookup entry points and autocall settings, for names of up to 14 components',
  'The tests look up some tens of names in one or two fixed namespaces and run the two implementations separately; the precedence of '
  'mapping key over attribute, the no-fall-through rule and the autocall rule are products over layers, value kinds and depth.',
  ['Cheetah/NameMapper.py', 'Cheetah/c/_namemapper.c', 'Cheetah/c/_namemapper.h', 'Cheetah/Template.py', 'Cheetah/Compiler.py'],
  [('lookup functions', 'Cheetah/NameMapper.py:hasKey,_valueForName,valueFromSearchList,valueFromFrameOrSearchList'),
   ('C lookup', 'Cheetah/c/_namemapper.c:PyNamemapper_valueForName'),
   ('search list construction', 'Cheetah/Template.py:_initCheetahInstance')],
  technique='explicit enumeration of all namespace worlds x names, each run on both real implementations and compared with a '
            'reference resolver (bounded model checking against a model)',
  note='Exhaustive within the stated alphabet of value kinds and depths; assumes mappings whose lookup agrees with membership.')

P('C02', 'A failing lookup step never corrupts memory, leaks or kills the interpreter',
  'For every name lookup through the C implementation, and whichever single access step or autocall inside it raises (also one that '
  'succeeds when probed and fails when read), the call either returns a value or raises an exception, the interpreter survives, and '
  'afterwards every object involved has the reference count it had before, so that repeating the call does not grow memory.',
  ['inputs', 'fault_sequences'],
  'all value-kind chains up to three components, all lookup functions, every choice of the access that raises and of the exception',
  'The tests never look at reference counts and inject no failure into the individual steps of a lookup.',
  ['Cheetah/c/_namemapper.c', 'Cheetah/c/_namemapper.h'],
  [('reference handling per step', 'Cheetah/c/_namemapper.c:PyNamemapper_valueForName'),
   ('name copy and cleanup macros', 'Cheetah/c/_namemapper.h')],
  technique='exhaustive fault enumeration on the real C code: every access index x exception kind x outcome, with reference counts '
            'and allocated-block counts compared before and after', level='fault_enumeration',
  note='Counts are compared over repeated calls, so a leak or over-release of one reference per call is visible; memory errors that '
       'leave no trace in counts or blocks and do not crash are not detected.')

P('C03', 'Control-flow directives execute as the equivalent structured program',
  'A template built from #if/#elif/#else/#unless, #for, #while, #repeat, #break, #continue, #pass, #try/#except/#finally, #raise, '
  '#assert, #set, #silent, #echo, #stop and #return, in their multi-line, one-line (":" and "#if a then b else c") and inline forms, '
  'produces exactly the output of the corresponding structured program: each branch is taken exactly when its condition says so, each '
  'loop iterates exactly over its sequence, and loop and set variables have the last value assigned.',
  ['programs', 'inputs'],
  'all template programs up to the stated node count and nesting over a small set of conditions, and all truth assignments of their variables',
  'Each test exercises one directive with one or two values; nesting, one-line forms inside multi-line ones and the interplay of '
  'break/continue/try with output are combinations no test covers.',
  ['Cheetah/Compiler.py', 'Cheetah/Parser.py'],
  [('code generation for block directives', 'Cheetah/Compiler.py:addIndentingDirective,addReIndentingDirective,addFor,addRepeat,addUnless,addOneLineIf,addTernaryExpr'),
   ('directive parsing', 'Cheetah/Parser.py:eatIf,eatFor,eatSet,eatTry,_eatSingleLineDef,_eatMultiLineDef')],
  technique='all programs up to a size bound are generated, compiled and run by the real engine and compared step for step with a small '
            'reference interpreter (explicit-state, states = program point + environment + output)',
  note='Exhaustive over the program grammar up to the stated size; expression alphabet is small.')

P('C04', 'Output redirection captures each piece of output exactly once',
  'Everything written inside #call (with its #arg parts), #capture or a method or block called inside one goes only to that collector, '
  'appears in the main output exactly as often as the collected value is inserted, and writing resumes at the place it was diverted from, '
  'for every nesting of these directives and of #def, #block, #filter, conditionals and loops; this also holds for the output after the point where an '
  'exception raised inside a region is caught by a #try around it.',
  ['programs', 'fault_sequences'],
  'all nestings of output regions up to the stated depth, with an exception raised at any statement inside them',
  'The tests use single regions without nesting or failures inside them.',
  ['Cheetah/Compiler.py', 'Cheetah/Template.py', 'Cheetah/DummyTransaction.py'],
  [('region code generation', 'Cheetah/Compiler.py:startCallRegion,endCallRegion,startCaptureRegion,endCaptureRegion,setFilter,closeFilterBlock')],
  technique='all region nestings up to a depth, with a fault at every statement, run on the real engine and compared with a reference '
            'interpreter holding an explicit stack of collectors',
  note='Exhaustive within depth and statement bounds.')

P('C05', 'Text that is not a Cheetah construct is output unchanged',
  'Every character of a template outside placeholders, directives and comments reaches the output unchanged and in order: quotes, '
  'backslashes, percent signs, braces, brackets, tabs, carriage returns, lone "$" and "#", non-ASCII and control characters included; a '
  'placeholder or directive start token preceded by a backslash is output literally without the backslash, and #raw ... #end raw '
  'outputs its body verbatim.',
  ['inputs'],
  'all strings up to the stated length over an alphabet of the characters that are special to the template language, to Python string literals or to neither',
  'The tests contain a few dozen plain-text samples; the fast path that turns text into Python literals has corner cases made of two or three adjacent characters.',
  ['Cheetah/Parser.py', 'Cheetah/Compiler.py', 'Cheetah/SourceReader.py'],
  [('text scanning', 'Cheetah/Parser.py:eatPlainText,matchNonDirective,matchTopLevelToken'),
   ('string constant generation', 'Cheetah/Compiler.py:addStrConst,_unescapeCheetahVars,_unescapeDirectives,commitStrConst,handleWSBeforeDirective')],
  technique='exhaustive enumeration of all strings up to a length over the alphabet, real engine against a reference lexer',
  level='exploration',
  note='Every string within the bound is rendered; longer interactions than the bound are not covered.')

P('C06', 'Directives and comments remove exactly their own line whitespace',
  'A directive, comment or #slurp standing alone on its line removes that whole line (its indentation and line end) and nothing else, while one '
  'that shares its line with other text, or is closed with the directive end token, removes only itself; "##" comments run to the end of '
  'the line, "#* *#" comments nest and end at their matching terminator, and no comment produces output.',
  ['inputs', 'configurations'],
  'all small combinations of text before and after, indentation, line-end kind and directive or comment form',
  'Tests check a handful of whitespace layouts per directive.',
  ['Cheetah/Parser.py', 'Cheetah/Compiler.py', 'Cheetah/SourceReader.py'],
  [('directive tag end and line clearing', 'Cheetah/Parser.py:_eatRestOfDirectiveTag,isLineClearToStartToken'),
   ('comments', 'Cheetah/Parser.py:eatComment,eatMultiLineComment'),
   ('whitespace before directives', 'Cheetah/Compiler.py:handleWSBeforeDirective')],
  technique='exhaustive enumeration of line layouts x construct forms on the real engine against a reference line model',
  level='exploration', note='Exhaustive over the stated layout alphabet.')

P('C07', 'All placeholder spellings of one expression insert the same value once',
  'For every expression, the bare, braced, bracketed and parenthesised placeholder forms, with or without cache marker, and inside '
  'directives, evaluate it exactly once per insertion, left to right, to the value the same Python expression has, and insert the filtered '
  'value between exactly the surrounding text; the silent form inserts nothing when the name does not exist and otherwise behaves the same.',
  ['inputs', 'configurations'],
  'all chains of attribute, index, call and literal-argument suffixes up to the stated length, in every enclosure and text context',
  'The tests enumerate some hundred hand-written placeholders with a single namespace.',
  ['Cheetah/Parser.py', 'Cheetah/Compiler.py'],
  [('placeholder parsing', 'Cheetah/Parser.py:eatPlaceholder,getPlaceholder,getCheetahVarNameChunks,getCallArgString,getExpressionParts'),
   ('variable code generation', 'Cheetah/Compiler.py:genCheetahVar,genNameMapperVar,genPlainVar')],
  technique='exhaustive enumeration of suffix chains x enclosures on the real engine against direct evaluation of the expression',
  level='exploration', note='Exhaustive over the stated expression grammar.')

P('C08', 'Variable scoping: local, global and module assignments reach exactly their scope',
  'A plain #set is visible only in the method where it is made, hides outer values there and never changes them; #set global is seen by '
  'every method and included template of the same instance from then on and by no other instance, #set module is a module-level value of that '
  'compiled template that ranks behind the search list, #attr defines an attribute that ranks before it; method arguments, loop, capture and '
  'except variables and variables of (also nested) closures are local, #del removes a local, and none of them modifies the caller\'s search-list objects.',
  ['programs', 'histories'],
  'all short programs of assignments, reads and deletions spread over the main body, a method, a closure and an include, on two instances',
  'Tests check single assignments; the interference between scopes shows in sequences.',
  ['Cheetah/Compiler.py', 'Cheetah/Template.py', 'Cheetah/Parser.py'],
  [('set directives', 'Cheetah/Compiler.py:addSet,addDel,addAttribute'),
   ('search list and global set vars', 'Cheetah/Template.py:_initCheetahInstance,setSearchList,_handleCheetahInclude')],
  technique='all operation sequences up to a length run as templates on the real engine against a scope model (explicit-state)',
  note='Exhaustive within the operation alphabet and length.')

P('C09', 'A cached region serves the stored output exactly while it is valid',
  'A #cache region or cached placeholder is evaluated on first use and then served unchanged for the same region identifier and '
  'vary-by value until its refresh interval has elapsed, its test expression is true, or it is refreshed explicitly, '
  'after which the next rendering evaluates it anew; different regions, vary-by values and instances never receive each other\'s output, '
  'and a rendering that fails inside a region stores nothing.',
  ['histories', 'fault_sequences'],
  'all histories of render, clock advance, data change, refresh and failure up to the stated length over templates with one or two cached regions',
  'Tests check that a region stays cached or expires once, with real sleeps; not sequences of expiry, refresh and failure.',
  ['Cheetah/CacheRegion.py', 'Cheetah/CacheStore.py', 'Cheetah/Compiler.py', 'Cheetah/Template.py'],
  [('cache items and regions', 'Cheetah/CacheRegion.py:CacheItem,CacheRegion'),
   ('region code', 'Cheetah/Compiler.py:startCacheRegion,endCacheRegion'),
   ('refresh API', 'Cheetah/Template.py:getCacheRegion,refreshCache')],
  state=[('refresh time and expiry per region', 'when a region is next due', 'Cheetah/CacheRegion.py')],
  technique='breadth-first exploration of all histories on the real code under a virtual clock, against a reference cache model (explicit-state)',
  note='Exhaustive up to the history length; the clock is a stand-in for time.time.')

P('C10', 'Cache stores behave as an expiring key-value map',
  'Both cache back ends return the last value stored under a key until it is deleted, flushed or its expiry time has passed, and '
  'nothing afterwards; add stores only when the key is absent and replace only when it is present, each failing otherwise without '
  'changing the stored value.',
  ['histories'],
  'all operation histories up to the stated length over two keys, two values, expiries and clock advances, for the memory and the memcached back end',
  'The stores have no tests of their own.',
  ['Cheetah/CacheStore.py'],
  [('stores', 'Cheetah/CacheStore.py:MemoryCacheStore,MemcachedCacheStore')],
  technique='explicit-state exploration of all operation histories on the real stores, with a virtual clock and a stand-in memcached client, '
            'against a dictionary model', note='Exhaustive up to the history length.')

P('C11', 'Template inheritance resolves methods, blocks and attributes as classes do',
  'For every hierarchy of templates and Python base classes, rendering calls the most derived definition of each method or block, '
  '#super reaches exactly the next one above, #implements selects the method that renders, and a template that redefines a block replaces only '
  'that block\'s output in its parent\'s page.',
  ['programs', 'configurations'],
  'all hierarchies of up to three templates over two methods or blocks, each absent, overriding, overriding with super or extending',
  'Tests have one or two fixed two-level hierarchies.',
  ['Cheetah/Compiler.py', 'Cheetah/Template.py'],
  [('class generation', 'Cheetah/Compiler.py:setBaseClass,addSuper,setMainMethodName,addBlock handling'),
   ('main method selection', 'Cheetah/Template.py:_assignRequiredMethodsToClass,_addCheetahPlumbingCodeToClass')],
  technique='all small hierarchies are generated, compiled and rendered by the real engine and compared with a reference method-resolution model',
  note='Exhaustive over the stated hierarchy alphabet.')

P('C12', 'Compiling never returns a class made for a different request',
  'Whatever compilations were made before, in whatever order and with whatever combination of source, compiler settings, class, module and method names, '
  'base class, preprocessors and globals, a compilation with result caching gives a template that behaves exactly as one compiled '
  'afresh from the same arguments, and caller-supplied arguments are left unmodified.',
  ['histories', 'configurations'],
  'all ordered pairs (and short histories) of compile requests over a set of requests that differ in a single argument',
  'Tests check that the cache hits, not that it never hits wrongly.',
  ['Cheetah/Template.py'],
  [('compile cache key', 'Cheetah/Template.py:compile')],
  state=[('compile cache', 'class per request key', 'Cheetah/Template.py:_CHEETAH_compileCache')],
  technique='all ordered pairs and triples of compile requests on the real cache, compared with an uncached compile (differential, explicit histories)',
  note='Exhaustive over the request alphabet.')

P('C13', 'Concurrent compiles and renders do not interfere',
  'When two threads compile or render templates at the same time, each gets exactly the result it would get alone, for every '
  'interleaving, including when both compile the same source through the shared cache or render separate instances of one class.',
  ['schedules'],
  'all interleavings of two threads at source-line granularity with at most the stated number of preemptions',
  'Tests run in one thread.',
  ['Cheetah/Template.py', 'Cheetah/Compiler.py', 'Cheetah/Parser.py'],
  [('compile lock and cache', 'Cheetah/Template.py:compile,_genUniqueModuleName'),
   ('per-instance state', 'Cheetah/Template.py:_initCheetahInstance')],
  technique='stateless model checking of the real code: a controlled scheduler enumerates all interleavings up to a preemption bound',
  level='exploration',
  note='Scheduling points are source lines of the modules under test in two threads; preemption-bounded.')

P('C14', 'An include inserts the rendered or raw content of exactly what it names',
  'An #include of a source string or a file inserts that content rendered in the including template\'s namespace, the raw form '
  'inserts it verbatim, and this holds for every mixture of raw and rendered, file and source includes of equal or different names in one '
  'template and over repeated renderings of the same instance.',
  ['programs', 'histories'],
  'all sequences of includes up to the stated length over two names, raw or rendered, file or source, in loops and repeated renderings',
  'Tests include each kind once.',
  ['Cheetah/Template.py', 'Cheetah/Compiler.py'],
  [('include handling', 'Cheetah/Template.py:_handleCheetahInclude'), ('include code', 'Cheetah/Compiler.py:addInclude')],
  technique='all include sequences on the real engine against a reference model (explicit-state)', note='Exhaustive within bounds.')

P('C15', 'Output filters apply to every placeholder value and to nothing else',
  'The active filter is applied exactly once to each inserted placeholder value with its arguments and never to literal text; WebSafe output '
  'contains no raw markup character of the value and decodes back to it, MaxLen never exceeds its limit, Strip and StripSqueeze change only '
  'whitespace, None values become the empty string, and #filter switches the filter for exactly its region, on this and later renderings.',
  ['inputs', 'programs'],
  'all values up to the stated length over an alphabet of markup, whitespace and plain characters, all filters, and all filter-region nestings',
  'Tests render a few strings per filter.',
  ['Cheetah/Filters.py', 'Cheetah/Compiler.py', 'Cheetah/Tools'],
  [('filters', 'Cheetah/Filters.py'), ('filter regions', 'Cheetah/Compiler.py:setFilter,closeFilterBlock'),
   ('html helpers', 'Cheetah/Utils/htmlEncode.py,htmlDecode.py')],
  technique='exhaustive enumeration of values x filters x region nestings on the real engine against reference filter functions',
  level='exploration', note='Exhaustive over strings up to the bound.')

P('C16', 'Ill-nested templates are rejected, well-nested ones accepted',
  'A template whose block directives are properly opened and closed compiles, and one with an unclosed, unopened or wrongly closed block, '
  'misplaced branch, or unterminated placeholder or expression raises ParseError instead of producing a template; any other source either compiles or '
  'raises ParseError. The reported line and column lie inside the source, and for nesting errors at or directly behind the offending tag (the last line for '
  'an unclosed block), for every line-end convention; for a bracket that is never closed, or closed by another kind in a directive, they are the line and column of that '
  'bracket, and the report shows that line with a mark below that column.',
  ['inputs'],
  'all sequences up to the stated length of block openers, closers, branches and text, with every line-end convention',
  'Tests check some thirty malformed templates for raising at all.',
  ['Cheetah/Parser.py', 'Cheetah/SourceReader.py'],
  [('open directive stack', 'Cheetah/Parser.py:pushToOpenDirectivesStack,popFromOpenDirectivesStack,assertEmptyOpenDirectivesStack'),
   ('positions', 'Cheetah/SourceReader.py:getRowCol,getRowColLine; Cheetah/Parser.py:ParseError')],
  technique='exhaustive enumeration of directive sequences on the real parser against a pushdown reference model',
  note='Exhaustive up to the sequence length.')

P('C17', 'Disabled directives and rejected expressions never take effect',
  'With a set of directives disabled (or only some enabled), no template using another one compiles, in whatever spelling, form or '
  'position it is written, and every template not using them is unaffected; an expression hook that rejects an expression prevents every '
  'construct containing it from compiling.',
  ['inputs', 'configurations'],
  'all directives x forms x positions x disabling configurations',
  'Tests disable one or two directives in their plainest form.',
  ['Cheetah/Parser.py'],
  [('directive filters', 'Cheetah/Parser.py:_filterDisabledDirectives,_initDirectives,_applyExpressionFilters')],
  technique='exhaustive product of directives, spellings, positions and configurations on the real parser',
  level='exploration', note='Exhaustive over the stated product.')

P('C18', 'Web input delivers exactly the requested fields with the requested conversion',
  'Collecting web input returns for every requested name the raw values converted as its type suffix says, the default where the field is missing or '
  'malformed, a list for multi-valued requests and only those names; errors are raised or replaced by the default exactly as configured.',
  ['inputs', 'configurations'],
  'all combinations of field values, presence, requested names and conversions, sources and defaults',
  'Tests cover a few fields.',
  ['Cheetah/Template.py'],
  [('web input', 'Cheetah/Template.py:webInput,_Converter,_lookup')],
  technique='exhaustive product of fields, conversions and settings on the real code against a reference conversion table',
  level='exploration', note='Exhaustive over the stated product.')

P('C19', 'Renderings are repeatable and survive any failed rendering',
  'Rendering the same instance again with the same data gives the same output, and two instances never influence each other; after a '
  'rendering that raised at any point - inside any region, method, filter, include or placeholder - the next rendering of the same instance '
  'is exactly what a fresh instance produces.',
  ['fault_sequences', 'histories'],
  'every placeholder evaluation of every template in the set as the failing point, followed by every continuation',
  'Tests render each template once and never after a failure.',
  ['Cheetah/Template.py', 'Cheetah/Compiler.py', 'Cheetah/DummyTransaction.py'],
  [('per-render setup', 'Cheetah/Compiler.py:MethodCompiler.addGetTextCode/setupState'),
   ('instance state', 'Cheetah/Template.py:_initCheetahInstance')],
  technique='exhaustive fault enumeration: the k-th evaluation fails for every k, then the instance is rendered again and compared with a fresh one',
  level='fault_enumeration', note='Every evaluation of every template in a generated set is a failing point.')

P('C20', 'Every delivery route and neutral compiler option gives the same output',
  'A compiled template produces the same text through str(), calling its main method, a response-writing transaction, a generated module imported from '
  'disk, a file or file object and an instance made directly from the source, and with every output-neutral compiler setting (stack frames, error catching, raw-expression '
  'filter arguments, import placement, method argument passing, comments, names and layout of the generated code) switched either way, singly and in pairs; written in other '
  'delimiters and compiled with these, it gives the same text too.',
  ['programs', 'configurations'],
  'all template programs of a generated set x delivery routes x single and paired option changes',
  'Tests repeat some templates with two or three settings; options are not combined with each other or with regions.',
  ['Cheetah/Compiler.py', 'Cheetah/Template.py', 'Cheetah/DummyTransaction.py'],
  [('generated method prologue and epilogue', 'Cheetah/Compiler.py:AutoMethodCompiler'),
   ('delivery', 'Cheetah/Template.py:__str__,respond,compile; Cheetah/DummyTransaction.py')],
  technique='exhaustive differential exploration: generated programs x routes x option vectors on the real engine',
  level='exploration', note='Differential: all routes must agree with the default one.')

P('C21', 'The command line writes each output where it says and loses no data',
  'cheetah compile and cheetah fill write, for every source named directly or found by recursion, exactly one output at the path given by the '
  'input and output directories, extensions and flat option, and no other file but the __init__.py of package directories that compile creates; with backups on an existing '
  'output is preserved under its backup name; two sources that map to one output are refused before anything is written; with --stdout nothing is written to '
  'files; a source that fails to compile or fill gives a non-zero exit status and leaves existing files unchanged, with one or several processes.',
  ['inputs', 'configurations', 'fault_sequences'],
  'all small directory trees x option combinations x pre-existing outputs x failing sources',
  'Tests run some dozen command lines without pre-existing outputs or failures.',
  ['Cheetah/CheetahWrapper.py', 'Cheetah/Utils/Misc.py'],
  [('bundle computation', 'Cheetah/CheetahWrapper.py:_expandSourceFiles,_getBundles,_checkForCollisions'),
   ('writing', 'Cheetah/CheetahWrapper.py:_compileOrFillBundle,_compileOrFill')],
  technique='exhaustive product of trees, options, prior contents and failing sources on the real command against a reference model of the files (explicit-state)',
  level='exploration', note='Runs forked, unprivileged, in a scratch directory; exhaustive over the stated product.')

P('C22', 'Importing a template gives exactly the code its files contain',
  'With the import hooks installed, or through loadTemplateModule and loadTemplateClass, a name resolves to the compiled module if there is one and otherwise to '
  'the template, which is compiled to a module beside it; the code that runs is that of the current content of the file found (byte code is used only if it belongs to '
  'the present version of its module, or if there is no module), also after a write that failed or was cut short; '
  'a second import gives the module already loaded; a failed import raises ImportError and leaves nothing behind, so that it succeeds once the cause is removed; packages, submodules and '
  'the search path resolve as for Python modules, imports of other modules are unaffected, and uninstalling restores the original import.',
  ['histories', 'crash_points'],
  'all short histories of write, replace, delete, import, forget and restart over a template, its module and its byte code; all cut writes; import statements x layouts',
  'Tests import two fresh templates once.',
  ['Cheetah/ImportHooks.py', 'Cheetah/LoadTemplate.py', 'Cheetah/ImportManager.py'],
  [('directory owner', 'Cheetah/ImportHooks.py:CheetahDirOwner'), ('loading', 'Cheetah/LoadTemplate.py'), ('resolution', 'Cheetah/ImportManager.py:DirOwner,ImportManager')],
  technique='exploration of all histories on the real hooks in a scratch directory against a model of template, module, byte code and loaded module (explicit-state), with write faults at every offset',
  note='Timestamps are set explicitly; exhaustive up to the history length.')

P('C23', 'One-line directive forms and macros mean what their expansion means',
  'A directive in its one-line form (#if x: text) renders exactly as its long form around the same text does, the line end inside the body for if, unless, for, '
  'while, repeat and cache, behind the region for filter, call, capture and raw, and swallowed for def, block and closure; a macro call '
  '(macroDirectives or #defmacro) renders exactly as the template with the macro\'s output written in its place, wherever it stands, '
  'whatever surrounds it and however long the output is, and the macro receives exactly the source and arguments written.',
  ['programs'],
  'all directives x bodies x positions, pairs of one-line directives on following lines, all macros x sources x positions',
  'Tests use each one-line form once or twice at the top of a template, and macros with a few outputs.',
  ['Cheetah/Parser.py', 'Cheetah/Compiler.py'],
  [('one-line forms', 'Cheetah/Parser.py:matchColonForSingleLineShortFormDirective,_eatSingleLineDef,eatIf,eatClosure,eatCallDirective'),
   ('macros', 'Cheetah/Parser.py:eatMacroCall,eatDefMacro')],
  technique='exhaustive differential exploration of directive forms, bodies and positions on the real engine',
  level='exploration', note='Each form is compared with its expansion on the real engine.')

P('C24', 'An error catcher replaces exactly the placeholders that cannot be found',
  'While an #errorCatcher is on in a method, a placeholder whose name cannot be found renders as the catcher documents (Echo: its source '
  'text, BigEcho: the text marked, ListErrors: its text and an entry in listErrors(), KeyError: a KeyError is raised), exactly where it stands; every other '
  'placeholder renders as it would without the catcher, whatever it is made of (strings with escapes, triple quotes, generators, lambdas, local variables), '
  'every other exception is raised as it would be without the catcher, and placeholders outside of the region are not affected. '
  'Rendering again, or another instance, gives what its own data say.',
  ['programs', 'histories'],
  'all sequences of up to 2 placeholder spellings (3 of the main ones) x 5 catchers x 14 positions, each rendered twice on one instance and on a second one',
  'Tests use each catcher with one or two simple placeholders.',
  ['Cheetah/Compiler.py', 'Cheetah/ErrorCatchers.py', 'Cheetah/Template.py'],
  [('generated catcher methods', 'Cheetah/Compiler.py:addErrorCatcherCall,turnErrorCatcherOn,turnErrorCatcherOff'),
   ('catchers', 'Cheetah/ErrorCatchers.py:ErrorCatcher,Echo,BigEcho,KeyError,ListErrors')],
  technique='explicit-state model of placeholder outcomes under each catcher, every sequence replayed on the real compiler and runtime',
  level='model_checking', note='Every model trace is rendered on the real engine.')

P('C25', 'Compiler settings act from where they stand, whichever way they are written',
  'A compiler setting given to compile(), by #compiler, or by #compiler-settings in either syntax has the same effect: from that point of the source on, and '
  'not before, exactly the constructs written with the tokens in force are recognised (placeholders, directives, both kinds of comments, PSP, line-end slurps, their escapes) and everything written in '
  'other tokens is text; autocalling, name mapping and filtering are switched likewise; reset restores the defaults. Values in #compiler-settings mean the number, truth '
  'value, None, Python expression or text written. Settings merge as documented and neither another template nor the caller\'s settings are ever changed.',
  ['programs', 'histories'],
  'all histories of up to 3 switches over 18 settings values x 3 routes and resets in 4 positions with the whole language probed in every state, all short value texts, all sequences of 3 nested updates',
  'Tests switch one token once in a template.',
  ['Cheetah/Parser.py', 'Cheetah/Compiler.py', 'Cheetah/SettingsManager.py'],
  [('directives', 'Cheetah/Parser.py:eatCompiler,eatCompilerSettings,configureParser'), ('settings', 'Cheetah/SettingsManager.py:mergeNestedDictionaries,stringIsNumber,readSettingsFromConfigFileObj'),
   ('effect', 'Cheetah/Compiler.py:setCompilerSetting,setCompilerSettings,_addAutoSetupCode')],
  technique='explicit-state exploration of settings histories: a model of the settings in force predicts every construct, each history compiled and rendered on the real engine',
  level='model_checking', note='Every model trace is compiled and rendered on the real engine.')

P('C26', 'A compiled template run as a script fills itself from the sources named',
  'Running a compiled template module with --env, --pickle and --json options, in any order, number and spelling, prints the template filled from exactly those sources, a '
  'later option taking precedence over earlier ones and all of them over the template\'s own attributes and methods; - reads standard input; help and wrong options print the usage and exit with '
  '0 and 2 without rendering; other instances are not affected.',
  ['histories'],
  'all command lines of up to 3 of 17 option spellings x 4 templates in-process, all of up to 1 option as real processes',
  'Tests do not run compiled modules with more than one option.',
  ['Cheetah/TemplateCmdLineIface.py', 'Cheetah/Template.py', 'Cheetah/Compiler.py'],
  [('options', 'Cheetah/TemplateCmdLineIface.py:CmdLineIface'), ('entry', 'Cheetah/Template.py:runAsMainProgram'), ('generated main', 'Cheetah/Compiler.py:moduleFooter')],
  technique='explicit-state model of the namespace stack after each option, every command line replayed on the real interface',
  level='model_checking', note='Every model trace is run on the real interface.')

P('C27', 'A preprocessed template is the template its preprocessors write',
  'Compiling a source with preprocessors, given in any of the accepted forms (a token string or pair, a dictionary or object of settings, a callable, an object with a preprocess method), singly, in a list '
  'or as the default of a Template subclass, gives the same template as compiling the text that the stages produce one after the other: each stage\'s constructs take effect in that stage, in its '
  'own tokens, namespace and settings, everything else is passed on unchanged, and the final arguments act on the last stage only. Nothing the caller passed is changed, and an error in a stage is raised.',
  ['inputs'],
  'all sequences of 2 of 29 constructs x 18 forms of preprocessor, of 3 in one form, pipelines of two and three stages, sources, paths and files',
  'Tests run seven templates through one preprocessor.',
  ['Cheetah/Template.py', 'Cheetah/Parser.py'],
  [('stages', 'Cheetah/Template.py:TemplatePreprocessor,_preprocessSource'), ('forms', 'Cheetah/Template.py:_normalizePreprocessorArg,_normalizePreprocessorSettings,_updateSettingsWithPreprocessTokens')],
  technique='exhaustive enumeration of construct sequences and pipelines; a model gives the source after each stage, the real compiler must behave as on the last one',
  level='model_checking', note='Every model trace is compiled and rendered on the real engine.')

P('C28', 'A #def, #block or #closure is called as the Python function it spells',
  'A method, block or closure of a template with plain, defaulted, * and ** parameters takes positional, keyword, * and ** arguments, from Python and from templates, exactly as the Python function with '
  'the same signature does: the same parameters get the same values and defaults, and the calls that function rejects raise TypeError. The spelling ($a or a, one line or several, with or without self) '
  'makes no difference, decorators are applied innermost first and only to their own definition, static and class methods work on the class and on instances, and a parameter called searchList is where names are looked up.',
  ['inputs'],
  'all 48 signatures x 14 decorator stacks x 7 layouts x 3 spellings x all calls with up to n+1 positional arguments and keyword subsets, 51 default expressions',
  'Tests have a dozen signatures, each called once or twice.',
  ['Cheetah/Parser.py', 'Cheetah/Compiler.py'],
  [('parameters', 'Cheetah/Parser.py:getDefArgList'), ('definitions', 'Cheetah/Parser.py:_eatDefOrBlock,eatDecorator'), ('methods', 'Cheetah/Compiler.py:AutoMethodCompiler,addClosure')],
  technique='exhaustive enumeration of definitions and calls; the model is the Python function with the same signature, every call is replayed on the real template',
  level='model_checking', note='Every model trace (call) is made on the real template, from Python and from the template.')

P('C29', 'getVar, varExists and hasVar answer as the placeholder resolves',
  'A template asked for a variable by name (dotted or not, with or without $) finds what the placeholder of that name finds in its set-global variables, its own attributes and its search list, '
  'with and without autocalling: getVar gives that value and otherwise, and only when the name is not found, the default untouched or NotFound; varExists and hasVar say whether it is found, and an error raised by '
  'the variable itself is raised and never taken for absence. Changes to the namespaces, the instance or the search list show in the next answer.',
  ['inputs', 'histories'],
  'all chains of value kinds up to 3 components x 4 layers x 7 defaults x autocalling; all sequences of 3 (4) of 12 changes with all questions after each',
  'Tests ask for three names.',
  ['Cheetah/Template.py', 'Cheetah/NameMapper.py', 'Cheetah/c/_namemapper.c'],
  [('questions', 'Cheetah/Template.py:getVar,varExists,hasVar,searchList'), ('lookup', 'Cheetah/NameMapper.py:valueFromSearchList')],
  technique='explicit enumeration of namespace worlds and of histories of changes; every answer of the real template is compared with a reference resolver, in both builds',
  level='model_checking', note='Every model trace is replayed on the real template, with the C and with the pure-Python name mapper.')
