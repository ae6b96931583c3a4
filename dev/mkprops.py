"""Writes /verif/properties.jsonl (the texts live here so they stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook)))

CLI = ['exit status', 'bytes of the --output file', 'stderr']
p('C01', 'A run is all or nothing, and the exit status tells which',
  'A run exits with status 0 exactly when the script and everything it uses is valid and the whole document was written: then the output is a PostScript document with one finished page per page block, in script order. Any other run exits with a nonzero status and leaves no page and no drawing operator in the output. A failure to read the script or a model, or to write the output, counts as such a failure and never passes for an empty or shortened input or document.',
  ['inputs', 'configurations', 'fault_sequences'],
  'every script, every set of model files, every kind of failing file (missing, directory, unreadable, full disk) and every combination of flags; the output path is a different file from the inputs',
  'The only test that is built calls one error-printing function. The other unit tests never look at the exit status or the output file, and the Bazel tests run a dozen fixed scripts; which of the many failure points is reached depends on the input.',
  ['stl-to-ps/stl-to-ps-main.cc', 'stl-to-ps/stl-to-ps.cc', 'stl-to-ps/stl.cc', 'stl-to-ps/parser.cc'],
  [('nothing is rendered before parsing, loading and layout all succeeded', 'stl-to-ps/stl-to-ps.cc ScriptToPS'),
   ('exit status from the result and the state of the output stream', 'stl-to-ps/stl-to-ps-main.cc main')],
  [('pages', 'laid out pages, rendered only at the end', 'stl-to-ps/stl-to-ps.cc ScriptToPS')], CLI)
p('C02', 'Every rejection is explained at the right script and line',
  'Every run that rejects a readable script prints at least one diagnostic that names the script as it was given and the line of an offending statement or argument, and a run that succeeds prints none. No diagnostic points at a line without a mistake. Mistakes in different models, pages, drawables or dimensions are all reported by the same run: one never hides another, except that a syntax error hides everything, that load failures hide the mistakes in pages, and that a draw with mistakes of its own may hide or be hidden by those of its dimensions.',
  ['inputs'], 'every script with any number and mix of mistakes at any lines',
  'Tests check single mistakes with a default location; combinations of mistakes and their line numbers in multi-line scripts are unbounded.',
  ['stl-to-ps/ast.h', 'stl-to-ps/stl-to-ps.cc', 'stl-to-ps/parser.y', 'stl-to-ps/lexer.l'],
  [('source locations on every node', 'stl-to-ps/ast.h NodeI/SYM_ERROR'), ('ok &= accumulation', 'stl-to-ps/stl-to-ps.cc LoadFiles, GeneratePages, AddDims'),
   ('lexer line tracking', 'stl-to-ps/lexer.l YY_USER_ACTION')], (), CLI)
p('C03', 'The script language: exactly the grammar is accepted',
  'A script is accepted by the parser exactly when it is a sequence of load statements and page blocks of the documented grammar: longest-match tokens, reserved words, signed decimal numbers, quoted strings with escapes, adjacent strings joined, // comments and free white space. White space and comments between tokens never change the result. The first token that cannot continue a valid script is reported on its line as a syntax error.',
  ['programs', 'inputs'], 'every byte sequence as a script',
  'Two fixed scripts with a syntax error are tested; the language is infinite and lexer/parser conflicts only show on particular token neighbours.',
  ['stl-to-ps/lexer.l', 'stl-to-ps/parser.y', 'stl-to-ps/parser.cc'],
  [('flex rules', 'stl-to-ps/lexer.l'), ('bison grammar', 'stl-to-ps/parser.y')], (), CLI)
p('C04', 'Text reaches the page unchanged and at its place',
  'What a PostScript interpreter shows for a text block is the script string after unescaping, split at newlines into lines of 12pt starting at the given place (the page center plus the offset in inches), with empty lines skipped but keeping their space. The same holds for page names. No content of a string - parentheses, backslashes, percent signs, dollar signs, non-ASCII bytes, any length - can end the PostScript string, lose or change characters, or be executed.',
  ['inputs'], 'every string over all bytes, every position, joined strings included',
  'The tests print two strings and never read the PostScript back.',
  ['stl-to-ps/ps.cc', 'stl-to-ps/ast.cc', 'stl-to-ps/stl-to-ps.cc', 'stl-to-ps/lexer.l'],
  [('unescaping', 'stl-to-ps/ast.cc NewQuote'), ('escaping', 'stl-to-ps/ps.cc TextToPs'), ('line splitting', 'stl-to-ps/stl-to-ps.cc DrawToPage(Text)')], (), CLI)
p('C05', 'Properties of a statement are checked, and their order is free',
  'A page, draw, text, dim, angle, dia or rad statement is accepted exactly when each of its properties is known to it, given once, of the right type and value, and everything it requires is there: for angle exactly one of each from_/to_ pair, for draw a known model, a known view and a positive whole scale. Each violation rejects the run naming the property at fault. The order of the properties never matters.',
  ['inputs', 'programs'], 'every statement kind with every multiset and order of properties and value types',
  'Tests try a handful of combinations per statement in a fixed order.',
  ['stl-to-ps/stl-to-ps.cc', 'stl-to-ps/ast.h'],
  [('duplicate check', 'stl-to-ps/stl-to-ps.cc Flatten'), ('known properties are taken, leftovers rejected', 'stl-to-ps/stl-to-ps.cc Take'), ('typed access', 'stl-to-ps/ast.h Meta::As/get')], (), CLI)
p('C06', 'Models are found along the load path, first match wins',
  'A relative model file is looked up in the current directory and then in each --load_path entry in order, and the first that exists is used; an absolute one is used as it is; nothing else is ever read. Each load is independent of the loads before it. A name loaded twice, or a file found nowhere, rejects the run with a diagnostic at its load statement, used or not.',
  ['inputs', 'configurations', 'histories'], 'every load list, load path (empty entries included) and population of the directories',
  'Tests load /dev/null and one missing name without a load path.',
  ['stl-to-ps/stl-to-ps.cc'], [('path search', 'stl-to-ps/stl-to-ps.cc LoadFiles')],
  [('stl_files', 'models by name', 'stl-to-ps/stl-to-ps.cc ScriptToPS')], CLI)
p('C07', 'STL files are read facet by facet, or rejected',
  'The triangles drawn are exactly those of the ASCII STL file, in any layout of spaces and any valid decimal notation, over any number of solids; facets with a zero normal are skipped and the stored normal alone decides which side faces out, whatever the vertex order. A file with any line that is not STL, or a facet without exactly three vertices, rejects the run; whether solids and loops are opened and closed in order is not looked at. Nothing carries over from one facet or file to another.',
  ['inputs', 'histories'], 'every sequence of lines as a model file',
  'Tests parse a few fixed snippets; line sequences, number formats and truncation points are unbounded.',
  ['stl-to-ps/stl.cc'], [('line matching and facet assembly', 'stl-to-ps/stl.cc STLFile::Make'), ('orientation', 'stl-to-ps/stl.cc Facet::Facet')],
  [('norm/points', 'facet being read', 'stl-to-ps/stl.cc STLFile::Make')], CLI)
p('C08', 'Feature edges: outlines and creases are drawn, smooth seams are not',
  'The candidate lines of a drawing are exactly the edges of viewer-facing triangles that belong to only one such triangle, or to two whose normals differ by more than the smoothing threshold (cosine below 0.98). Triangles that face away or are seen edge-on contribute nothing. Each such edge is drawn no matter how many facets the model has or in which order they come.',
  ['inputs'], 'every triangle mesh in which no edge has more than two viewer-facing triangles, and every view',
  'Tests use single triangles and pairs; edge indexing mistakes need particular facet orders and counts.',
  ['stl-to-ps/stl.cc'], [('back-face culling', 'stl-to-ps/stl.cc CullBackFace'), ('edge index and smooth-edge partition', 'stl-to-ps/stl.cc Index')],
  [('edges/face_edge/unseen', 'edge table, partitioned in drawn and smooth', 'stl-to-ps/stl.h STLFile')], CLI)
p('C09', 'Hidden lines are removed, visible ones are complete',
  'Of each feature edge exactly the parts that no viewer-facing triangle lies in front of are drawn. An edge that passes behind several triangles is cut at each of their outlines, also where the hidden parts overlap, touch or nest. Nothing in front of everything else is ever cut.',
  ['inputs'], 'every scene of triangles that do not pass through each other, and every view',
  'Tests cover one triangle over one edge and the span merging with hand-made spans.',
  ['stl-to-ps/stl.cc'], [('edge crossings', 'stl-to-ps/stl.cc EdgeCrosses'), ('spans hidden by a face', 'stl-to-ps/stl.cc ToLines'), ('span merging', 'stl-to-ps/stl.cc GenerateLines')], (), CLI)
p('C10', 'Views show the model from the named side or the given angles',
  "View 'X+' looks at the side facing +x with +y to the right and +z up, and likewise the other five; [a,b] turns the model by a degrees in the plane of the paper's x and y axes and then tilts it by b; without a view the model is seen as from Z+. All views are rotations: never mirrored, sheared or scaled. Model lines, dimension points and directions are all turned the same way, once per draw.",
  ['inputs'], 'every model, view name and pair of angles, with every kind of annotation',
  'Tests apply one named view to one point.',
  ['stl-to-ps/ast.cc', 'stl-to-ps/geo.cc', 'stl-to-ps/geo.h', 'stl-to-ps/stl.cc', 'stl-to-ps/stl-to-ps.cc'],
  [('view tables', 'stl-to-ps/geo.h matrix, stl-to-ps/ast.cc GetMatrixByName'), ('angles', 'stl-to-ps/geo.cc Rotate'), ('application', 'stl-to-ps/stl.cc STLFile::Rotate, stl-to-ps/stl-to-ps.cc GetRotated')],
  [('rotation_', 'view of the current draw', 'stl-to-ps/stl-to-ps-impl.h DrawToPage')], CLI)
p('C11', 'Scale and placement are exact',
  "A model length of L units at scale a:b measures 72*L*a/b points on paper (1:1 without a scale), in every direction and for lines and annotation positions alike. The middle of the bounding box of the viewer-facing triangles lies at the page center plus the '@' offset in inches. Arrow heads, gaps and text keep their size in points at every scale.",
  ['inputs'], 'every scale of positive whole numbers, offset, model and annotation',
  'No test looks at coordinates on the page.',
  ['stl-to-ps/stl-to-ps.cc', 'stl-to-ps/stl.cc'], [('projection', 'stl-to-ps/stl-to-ps.cc DrawToPage(Draw), AddLines, AddArcs, AddText'), ('bounding box', 'stl-to-ps/stl.cc Limits')],
  [('proj', 'scale and offset of the current draw', 'stl-to-ps/stl-to-ps-impl.h DrawToPage')], CLI)
p('C12', 'Linear dimensions state and mark the true distance',
  "The value of a dim is the distance between from and to measured along dir, in model units and independent of scale, place, length of dir and the order of from and to. The dimension line runs through 'at' along dir; its arrow heads sit at the projections of from and to and point at them, outward when there is room for the label and inward otherwise; the extension lines start at from and to; the label is centered at 'at'.",
  ['inputs'], 'every combination of points, direction, format, scale and view',
  'The unit tests only check that dims are accepted.',
  ['stl-to-ps/stl-to-ps.cc'], [('construction', 'stl-to-ps/stl-to-ps.cc DrawToPage(Dim)')], (), CLI)
p('C13', 'Angle dimensions state and mark the true angle',
  "The value of an angle is the angle between the two directions from the apex, in degrees between 0 and 180, whichever is named first and whether given as direction or as point. The arc is centered at the apex, passes at the distance of 'at', and covers exactly the sector between the two directions; extension lines run along them, and arrow heads sit where the arc ends. Parallel directions are rejected, and nearly parallel ones show a number.",
  ['inputs'], 'every apex, pair of directions or points, format, scale and view',
  'The unit tests only check that angles are accepted.',
  ['stl-to-ps/stl-to-ps.cc', 'stl-to-ps/geo.h', 'stl-to-ps/ps.cc'], [('construction', 'stl-to-ps/stl-to-ps.cc DrawToPage(Angle)'), ('arc', 'stl-to-ps/geo.h Arc, stl-to-ps/ps.cc ArcToPs')], (), CLI)
p('C14', 'dia and rad find and mark the circle through the nearest vertices',
  "dia and rad measure the circle fitted to the vertices near 'center': first through the three nearest distinct ones, then through all vertices whose distance from that center is within a tenth of the radius. The label shows twice the radius after a diameter sign, or R and the radius; the arrow heads sit on that circle on the line through its center along dir, and the leader ends at 'at'. The result does not depend on the order of the vertices, and too few vertices, vertices on one line, or a dir of no length in the view are rejected.",
  ['inputs'], 'every vertex set, target, direction, format, scale and view',
  'The unit tests fit one square and never look at the drawing.',
  ['stl-to-ps/stl-to-ps.cc', 'stl-to-ps/ast.cc', 'stl-to-ps/center.cc'],
  [('selection', 'stl-to-ps/ast.cc point_impl::Closest/Between'), ('fit', 'stl-to-ps/center.cc FindCircle'), ('construction', 'stl-to-ps/stl-to-ps.cc GetCenter, RenderDia, RenderRad')], (), CLI)
p('C15', 'near() and center() pick the documented point, nested calls included',
  'near(p) is p itself when a viewer-facing triangle has a vertex exactly there, otherwise the position on paper of the vertex that is nearest to p as seen in the view. center(p) is the center of the circle that dia would find at p. They may be nested and used for every point argument, always refer to the model and view of their own draw, and fail with a diagnostic when there is nothing to choose from.',
  ['inputs', 'histories'], 'every vertex set, target, nesting, view and sequence of draws',
  'Tests use one-element vertex sets and one square.',
  ['stl-to-ps/ast.cc', 'stl-to-ps/stl-to-ps.cc'], [('functions', 'stl-to-ps/ast.cc PointFunc'), ('point set of the current draw', 'stl-to-ps/stl-to-ps.cc AddDims')],
  [('points_', 'vertices of the current draw', 'stl-to-ps/stl-to-ps-impl.h DrawToPage')], CLI)
p('C16', 'Drawables are independent: no state leaks between them',
  'What a draw or text puts on its page depends only on its own statement and the model it names. It is the same whatever comes before or after it on that page or others, however often the model was drawn already and with whatever view, scale, place and annotations; and the content of a page is exactly the sum of its drawables and its furniture.',
  ['histories', 'programs'], 'every sequence of pages and drawables with every mix of optional properties',
  'Tests never draw two things; leaks need a particular sequence of statements with and without optional properties.',
  ['stl-to-ps/stl-to-ps.cc', 'stl-to-ps/stl-to-ps-impl.h', 'stl-to-ps/stl.cc'],
  [('projection reset per draw', 'stl-to-ps/stl-to-ps.cc DrawToPage(Draw)'), ('models are never modified', 'stl-to-ps/stl.cc Rotate')],
  [('proj, points_, rotation_, current_page', 'working set shared by all visits', 'stl-to-ps/stl-to-ps-impl.h DrawToPage')], CLI)
p('C17', 'Every page has its frame, title and number, as the flags ask',
  'Every page is 792x612 points with a border from (5,5) to (787,607), a title box in the lower right corner as wide as its name and anchored at the border, and one status line at (7,7): the time if --timestamp, then "page N of M" if --number_pages, and nothing if neither. N counts from 1 in script order and M is the number of page blocks; the time is the same on all pages. --name and the script name appear in the header comments only, where no content of theirs can become code.',
  ['inputs', 'configurations'], 'every number of pages, page name and flag combination',
  'Tests look for fixed substrings of one page.',
  ['stl-to-ps/ps.cc', 'stl-to-ps/stl-to-ps.cc'], [('page header and footer', 'stl-to-ps/ps.cc PageHeader, PageFooter, DocumentHeader'), ('title', 'stl-to-ps/stl-to-ps.cc OutputPage::AddHeader')], (), CLI)
p('C18', 'Accepted input yields well-formed PostScript with finite numbers',
  'Whatever script and models are accepted, the output can be executed by a PostScript interpreter from start to end: every token is well formed, every operator finds its operands, the stack and the dictionaries are as before at the end of each page, and every operand is a finite number. Degenerate geometry (points that coincide, empty or flat models, labels without room) is either rejected with a diagnostic or drawn with finite numbers.',
  ['inputs'], 'every accepted input whose numbers have a magnitude between 1e-6 and 1e6 or are zero',
  'Tests never execute the output; degenerate inputs are exactly the ones nobody writes a test for.',
  ['stl-to-ps/ps.cc', 'stl-to-ps/stl-to-ps.cc', 'stl-to-ps/center.cc'],
  [('degenerate inputs are rejected', 'stl-to-ps/stl-to-ps.cc'), ('normalization', 'stl-to-ps/stl.cc Facet::Facet')], (), CLI)
p('C19', 'Labels follow fmt exactly as printf would',
  "A fmt is accepted exactly when it is a printf format with one %f conversion (any flags, width and precision) and otherwise literal text, for all four dimension kinds alike; anything else is rejected at the fmt's line. The label is what printf would print for the value, followed by ' deg' for angle, and after a diameter sign or R for dia and rad. Without fmt three decimals are shown, one for angle.",
  ['inputs'], 'every format string and value',
  'Tests try %n, %f and %.0f and never look at the label.',
  ['stl-to-ps/stl-to-ps.cc'], [('checked formats', 'stl-to-ps/stl-to-ps.cc absl::ParsedFormat')], (), CLI)
p('C20', 'Syntax error messages carry file, range and text verbatim',
  'A syntax diagnostic is one line on stderr of the form "error FILE:LINE:[C1,C2]: TEXT" when it starts and ends on one line, and "error FILE:L1:C1 to L2:C2: TEXT" otherwise, with "??" for an unknown file. File and text appear verbatim whatever they contain (NUL aside), at any length. For a script, the range is that of the first token that cannot continue it, columns counted from 0 in every line and ending after the token; a character that starts no token is the text.',
  ['inputs'], 'every location and every file name and message text, and every script that is no document (at its end only the line is defined)',
  'The one test that is built calls it with a fixed message and looks at nothing.',
  ['stl-to-ps/parser_support.cc', 'stl-to-ps/lexer.l', 'stl-to-ps/parser.y'], [('formatting', 'stl-to-ps/parser_support.cc error')], (), ['stderr'])
p('C21', 'No input makes the program misbehave',
  'For every script and model content - any bytes, any size, nesting up to a thousand levels - the program ends by itself with status 0 or 1: it never crashes, aborts, hangs, or reads or writes outside its memory.',
  ['inputs'], 'every byte sequence as script or model file',
  'Tests feed a dozen well-formed inputs.',
  ['stl-to-ps/lexer.l', 'stl-to-ps/parser.y', 'stl-to-ps/stl.cc', 'stl-to-ps/ast.cc', 'stl-to-ps/stl-to-ps.cc'],
  [('checked input', 'stl-to-ps/lexer.l, stl-to-ps/stl.cc STLFile::Make')], (), CLI)
p('C22', 'The drawing depends on the shape, not on how the file lists it',
  'Reordering the facets of a model, rotating or reversing the vertices of a facet, splitting the file into several solids, or changing indentation and number notation leaves the drawing and all its annotations unchanged. So does renaming a model or loading further models. Two runs on the same input produce the same document except for the time.',
  ['inputs', 'histories'], 'every model and script, and every such rearrangement',
  'Tests never compare two drawings.',
  ['stl-to-ps/stl.cc', 'stl-to-ps/ast.cc'], [('edge identity by coordinates', 'stl-to-ps/stl.cc Index'), ('ordered point set', 'stl-to-ps/geo.h point_set')], (), CLI)
p('C23', 'The Bazel rules run the tools on what they declare',
  'For every script, set of dependencies and output name, stl2pdf declares exactly one stl-to-ps action and one ps2pdf action that consumes its output: the script, all models and nothing undeclared are inputs, each distinct generated-file root is on the load path once, and script, output and name are passed exactly. scad_binary declares one openscad action from its source and dependencies to its output.',
  ['configurations', 'inputs'], 'every set of source and generated dependencies in any order',
  'The Bazel tests need the network and build two fixed targets.',
  ['stl-to-ps/rule.bzl'], [('actions', 'stl-to-ps/rule.bzl _stl2pdf_impl, _scad_binary_impl')], (), ['declared actions'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for r in P:
        assert len(r['title']) <= 80, r['title']
        f.write(json.dumps(r) + '\n')
print(len(P))
