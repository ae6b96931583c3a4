SQ = "solid(quad((0,0,0),(2,0,0),(2,2,0),(0,2,0)))"
BUGS = [
dict(id='C01-second-page', prop='C01',
  edits=[('stl-to-ps.cc', '    ok &= Flatten("page", doc_page.meta, &seen);', '    ok = Flatten("page", doc_page.meta, &seen);')],
  needs='two pages, a mistake in a drawable of the first and none in the last',
  breaks='the failure of an earlier page is forgotten, so that a run that complained writes a document and exits with 0',
  demo='''
m = solid(quad((0,0,0),(2,0,0),(2,2,0),(0,2,0)))
r = run('load m = "m.stl";\\npage { draw m { view = "Q"; } }\\npage { draw m { } }\\n', {'m.stl': m})
check(r.rc != 0, 'exit status %d' % r.rc)
check('showpage' not in r.out, 'wrote pages')
'''),
dict(id='C02-dim-hides', prop='C02',
  edits=[('stl-to-ps.cc', 'for (const auto& dim : dims) ok &= dim->VisitNode(this);', 'for (const auto& dim : dims) ok = ok && dim->VisitNode(this);')],
  needs='two dimensions of one draw, both with mistakes',
  breaks='the mistake in the first dimension hides the one in the second',
  demo='''
m = solid(quad((0,0,0),(2,0,0),(2,2,0),(0,2,0)))
r = run('load m = "m.stl";\\npage { draw m {\\n dim ( at = [0,0,0] );\\n dim ( at = [0,0,0] );\\n } }\\n', {'m.stl': m})
check(r.rc == 1, 'status')
check(set(diags(r)) == {3, 4}, 'lines %s' % diags(r))
'''),
dict(id='C03-long-id', prop='C03',
  edits=[('lexer.l', '[a-zA-Z_][a-zA-Z0-9_]*      {', '[a-zA-Z_][a-zA-Z0-9_]{0,62}  {')],
  needs='an identifier of 64 characters or more',
  breaks='the lexer splits long identifiers in two tokens, so that a valid script is a syntax error',
  demo='''
m = solid(quad((0,0,0),(2,0,0),(2,2,0),(0,2,0)))
n = 'model_' * 12
r = run('load %s = "m.stl";\\npage { draw %s { } }\\n' % (n, n), {'m.stl': m})
check(r.rc == 0, 'status %d %s' % (r.rc, r.err))
'''),
dict(id='C04-high-bytes', prop='C04',
  edits=[('ps.cc', '''          default:
            s.push_back(c);
            break;
''', '''          default:
            if (c >= ' ' || c == '\\n') s.push_back(c);
            break;
''')],
  needs='a string with a byte that is not ASCII',
  breaks='char is signed, so bytes from 128 on are lost from texts',
  demo='''
r = run(b'page { text [ "5 \\xb0 up" ] { } name = "r\\xe9sum\\xe9"; }\\n')
check(r.rc == 0, 'status')
check(has_text(r.pages[0], '5 \\xb0 up'), 'text')
check(has_text(r.pages[0], 'r\\xe9sum\\xe9'), 'name')
'''),
dict(id='C04-blank-line', prop='C04',
  edits=[('stl-to-ps.cc', '''      current_page->text.push_back(t);
    }
    t.at.y() -= 12;
''', '''      current_page->text.push_back(t);
      t.at.y() -= 12;
    }
''')],
  needs='a text with an empty line between others',
  breaks='an empty line of a text takes no space',
  demo='''
r = run('page { text [ "a\\\\n\\\\nb" ] { } }\\n')
check(r.rc == 0, 'status')
y = {t[2]: t[1] for t in r.pages[0].texts}
check(abs(y['a'] - y['b'] - 24) < 1e-6, 'places %s' % y)
'''),
dict(id='C05-angle-pairs', prop='C05',
  edits=[('stl-to-ps.cc', '  if (p_to_dir && p_to_point) {', '  if (p_to_dir && p_to_point && !p_from_point) {')],
  needs='an angle with to_dir, to_point and from_point',
  breaks='an angle with both to_dir and to_point is accepted when from_point is given',
  demo='''
m = solid(quad((0,0,0),(2,0,0),(2,2,0),(0,2,0)))
r = run('load m = "m.stl";\\npage { draw m {\\n angle ( at = [1,1,0], apex = [0,0,0], from_point = [2,0,0], to_dir = [0,1,0], to_point = [0,2,0] );\\n } }\\n', {'m.stl': m})
check(r.rc == 1, 'status')
'''),
dict(id='C06-here-last', prop='C06',
  edits=[('stl-to-ps.cc', '      r.insert(r.begin(), ".");', '      r.push_back(".");')],
  needs='a model that is both in the current directory and in an entry of --load_path',
  breaks='the current directory is searched last instead of first',
  demo='''
a = solid(quad((0,0,0),(2,0,0),(2,2,0),(0,2,0)))
b = solid(quad((0,0,0),(3,0,0),(3,3,0),(0,3,0)))
r = run('load m = "m.stl";\\npage { draw m { } }\\n', {'m.stl': a, 'lib/m.stl': b}, ['--load_path=lib'])
check(r.rc == 0, 'status')
check(has_line(r.pages[0], 324, 234, 468, 234), 'not the model of the current directory')
'''),
dict(id='C07-zero-normal', prop='C07',
  edits=[('stl.cc', '''      norm = {x, y, z};
      points.clear();
''', '''      norm = {x, y, z};
''')],
  needs='a facet with a zero normal followed by another facet',
  breaks='the vertices of the skipped facet stay and count for the next one, so that a valid file is rejected',
  demo='''
m = solid(tri((0,0,0),(2,0,0),(2,2,0)), tri((0,0,0),(0,0,0),(2,2,0), normal=(0,0,0)), tri((0,0,0),(2,2,0),(0,2,0)))
r = run('load m = "m.stl";\\npage { draw m { } }\\n', {'m.stl': m})
check(r.rc == 0, 'status %d %s' % (r.rc, r.err))
'''),
dict(id='C08-swap-skip', prop='C08',
  edits=[('stl.cc', '      const int ea = i--, eb = --unseen;', '      const int ea = i, eb = --unseen;')],
  needs='a smooth edge that is swapped with another smooth edge at the end of the list',
  breaks='the edge that is swapped in is never tested, so that some smooth seams are drawn',
  demo='''
# a flat fan of triangles: all spokes are smooth
import math
n = 12
p = [(2 * math.cos(2 * math.pi * i / n), 2 * math.sin(2 * math.pi * i / n), 0) for i in range(n)]
m = solid(*[tri((0,0,0), p[i], p[(i + 1) % n]) for i in range(n)])
r = run('load m = "m.stl";\\npage { draw m { } }\\n', {'m.stl': m})
check(r.rc == 0, 'status')
spokes = [l for l in r.pages[0].lines if any(abs(l[k] - 396) < .01 and abs(l[k + 1] - 306) < .01 for k in (0, 2))]
check(not spokes, 'spokes are drawn: %s' % spokes)
'''),
dict(id='C09-nested', prop='C09',
  edits=[('stl.cc', '''      if (d < n) {
        d = n;
        from = hid.second;
      }
''', '''      d = n;
      from = hid.second;
''')],
  needs='an edge with a hidden part that contains another one',
  breaks='after a nested hidden part the rest of the outer one is drawn',
  demo='''
back = quad((-4,-.25,0),(4,-.25,0),(4,.25,0),(-4,.25,0))
big = tri((-4,-1,1),(4,-1,1),(0,4,1))
small = tri((-1,-1,2),(1,-1,2),(0,4,2))
r = run('load m = "m.stl";\\npage { draw m { scale = 1:2; } }\\n', {'m.stl': solid(back, big, small)})
check(r.rc == 0, 'status')
y = 306 + (.25 - 1.5) * 36
for l in r.pages[0].lines:
    if abs(l[1] - y) < .01 and abs(l[3] - y) < .01:
        lo, hi = sorted((l[0], l[2]))
        check(hi <= 396 - 36 * 3 + 1 or lo >= 396 + 36 * 3 - 1, 'a hidden part is drawn %s' % (l,))
'''),
dict(id='C09-smooth-edge', prop='C09',
  edits=[('stl.cc', 'for (int u = v + 1; u < int(edges.size()); u++) {', 'for (int u = v + 1; u < unseen; u++) {')],
  needs='an edge that is hidden by only one half of a quad, cut at its diagonal',
  breaks='edges are only cut at edges that are drawn, so that the parts behind the triangles of a flat face are shown',
  demo='''
back = tri((4,0,0),(-4,0,0),(0,-3,0))
front = quad((-1,-1,1),(1,-1,1),(1,1,1),(-1,1,1))
r = run('load m = "m.stl";\\npage { draw m { scale = 1:2; } }\\n', {'m.stl': solid(back, front)})
check(r.rc == 0, 'status')
xs = []
for l in r.pages[0].lines:
    if abs(l[1] - l[3]) < .01 and 250 < min(l[0], l[2]) + 36 and max(l[0], l[2]) > 396 > min(l[0], l[2]) and abs(abs(l[0] - l[2]) - 288) < 1:
        check(False, 'the edge is drawn through %s' % (l,))
'''),
dict(id='C10-tilt', prop='C10',
  edits=[('geo.cc', 'azm_cos = std::cos(-azm);', 'azm_cos = std::sqrt(1 - azm_sin * azm_sin);')],
  needs='a view [a,b] with b more than 90 degrees',
  breaks='the model is tilted by 180-b instead of b degrees',
  demo="""
m = solid(tri((0,0,0),(2,0,0),(0,1,0)), tri((0,0,0),(0,1,0),(2,0,0)))
r = run('load m = "m.stl";\\npage { draw m { view = [0,120]; } }\\n', {'m.stl': m})
check(r.rc == 0, 'status')
# y points down by half its length
check(has_line(r.pages[0], 324, 324, 324, 288) and has_line(r.pages[0], 324, 324, 468, 324), 'lines %s' % r.pages[0].lines)
"""),
dict(id='C11-int-scale', prop='C11',
  edits=[('stl-to-ps.cc', '  proj.scale = 72.0 * scales.first / scales.second;', '  proj.scale = 72 * scales.first / scales.second;')],
  needs='a scale a:b with 72*a not a multiple of b',
  breaks='the scale is rounded down to whole points',
  demo='''
m = solid(quad((0,0,0),(10,0,0),(10,10,0),(0,10,0)))
r = run('load m = "m.stl";\\npage { draw m { scale = 1:5; } }\\n', {'m.stl': m})
check(r.rc == 0, 'status')
check(has_line(r.pages[0], 324, 234, 468, 234), 'lines %s' % r.pages[0].lines)
'''),
dict(id='C12-gap-down', prop='C12',
  edits=[('stl-to-ps.cc', 'auto gap = std::min(std::abs(width / a.x()), std::abs(height / a.y()));', 'auto gap = std::min(std::abs(width / a.x()), height / a.y());')],
  needs='a dim from a higher to a lower point',
  breaks='the gap for the label is negative, so that the dimension line runs through the label',
  demo='''
m = solid(quad((0,0,0),(4,0,0),(4,4,0),(0,4,0)))
r = run('load m = "m.stl";\\npage { draw m { dim ( at = [5,2,0], dir = [0,1,0], from = [4,4,0], to = [4,0,0] ); } }\\n', {'m.stl': m})
check(r.rc == 0, 'status')
x, y = 396 + 3 * 72, 306
mid = [l for l in r.pages[0].lines if abs(l[0] - x) < .01 and abs(l[2] - x) < .01 and min(l[1], l[3]) < y < max(l[1], l[3])]
check(not mid, 'through the label %s' % mid)
'''),
dict(id='C13-points', prop='C13',
  edits=[('stl-to-ps.cc', '''    swap(to_dir, from_dir);
    swap(to_point, from_point);
''', '''    swap(to_dir, from_dir);
''')],
  needs='an angle named clockwise with points of different distance',
  breaks='the extension lines begin at the wrong points',
  demo='''
m = solid(quad((0,0,0),(4,0,0),(4,4,0),(0,4,0)))
a = run('load m = "m.stl";\\npage { draw m { angle ( at = [2,2,0], apex = [0,0,0], from_point = [1,0,0], to_point = [0,2,0] ); } }\\n', {'m.stl': m})
b = run('load m = "m.stl";\\npage { draw m { angle ( at = [2,2,0], apex = [0,0,0], to_point = [1,0,0], from_point = [0,2,0] ); } }\\n', {'m.stl': m})
check(a.rc == 0 and b.rc == 0, 'status')
check(sorted(a.pages[0].lines) == sorted(b.pages[0].lines), 'different')
'''),
dict(id='C14-tolerance', prop='C14',
  edits=[('stl-to-ps.cc', 'near = point_impl::Between(points, rad * (1 - del), rad * (1 + del), center);', 'near = point_impl::Between(points, rad - del, rad + del, center);')],
  needs='a radius other than 1, and vertices that are not exactly on the circle',
  breaks='the tolerance is a tenth of a unit instead of a tenth of the radius',
  demo="""
import math
def at(a, r): return (r * math.cos(math.radians(a)), r * math.sin(math.radians(a)), 0)
# three vertices nearest to the target, and two that are 6% off the circle
m = solid(tri(at(0, 5), at(40, 5), at(80, 5)), tri(at(160, 5.3), at(200, 5.3), at(240, 5.3)))
r = run('load m = "m.stl";\\npage { draw m { scale = 1:4; rad ( at = [8,0,0], dir = [1,0,0], center = [1,1,0] ); } }\\n', {'m.stl': m})
check(r.rc == 0, 'status %s' % r.err)
check(not has_text(r.pages[0], 'R5.000'), 'texts %s' % r.pages[0].texts)
"""),
dict(id='C15-exact', prop='C15',
  edits=[('ast.cc', '''  if (ps.find(target) != ps.end()) {
    *ret = target;
    return true;
  }
''', '')],
  needs='a dim with a near() of a vertex that is not at z = 0 of the view',
  breaks='near() of a vertex loses its depth',
  demo='''
m = solid(quad((0,0,0),(2,0,0),(2,2,0),(0,2,0)), quad((3,0,4),(5,0,4),(5,2,4),(3,2,4)))
r = run('load m = "m.stl";\\npage { draw m { dim ( at = [1,-1,0], dir = [3,0,4], from = near([0,0,0]), to = near([3,0,4]) ); } }\\n', {'m.stl': m})
check(r.rc == 0, 'status')
check(has_text(r.pages[0], '5.000'), 'texts %s' % r.pages[0].texts)
'''),
dict(id='C16-points', prop='C16',
  edits=[('stl-to-ps.cc', '  points_ = file.Points();\n', '  if (points_.empty()) points_ = file.Points();\n')],
  needs='two draws with annotations that use near(), center(), dia or rad',
  breaks='the annotations of the second draw pick the vertices of the first',
  demo='''
a = solid(quad((0,0,0),(2,0,0),(2,2,0),(0,2,0)))
b = solid(quad((0,0,0),(4,0,0),(4,4,0),(0,4,0)))
r = run('load a = "a.stl"; load b = "b.stl";\\npage { draw a { } draw b { dim ( at = [1,-1,0], dir = [1,0,0], from = near([0,0,0]), to = near([5,0,0]) ); } }\\n', {'a.stl': a, 'b.stl': b})
check(r.rc == 0, 'status')
check(has_text(r.pages[0], '4.000'), 'texts %s' % r.pages[0].texts)
'''),
dict(id='C17-name-stays', prop='C17',
  edits=[('stl-to-ps.cc', '''  DrawToPage visitor{stl_files};
  for (const auto& doc_page''', '''  DrawToPage visitor{stl_files};
  std::string page_name = "";  // TODO move into AddHeader
  for (const auto& doc_page'''), ('stl-to-ps.cc', '''    std::string page_name = "";  // TODO move into AddHeader
    if (auto name''', '''    if (auto name''')],
  needs='a page without a name after one with a name',
  breaks='the page without a name shows the name of the one before',
  demo='''
r = run('page { name = "first"; } page { }\\n')
check(r.rc == 0, 'status')
check(has_text(r.pages[0], 'first') and not has_text(r.pages[1], 'first'), 'texts')
'''),
dict(id='C17-clock', prop='C17',
  edits=[('ps.cc', '  const static auto ret = [] {', '  const auto ret = [] {')],
  needs='the clock to reach the next second during a run',
  breaks='every page shows the time at which it was written',
  extra={'tick.c': '''#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
static long n;
int clock_gettime(clockid_t c, struct timespec *t) { t->tv_sec = 1700000000 + n++ * 7; t->tv_nsec = 0; return 0; }
int gettimeofday(struct timeval *t, void *z) { t->tv_sec = 1700000000 + n++ * 7; t->tv_usec = 0; return 0; }
time_t time(time_t *t) { time_t v = 1700000000 + n++ * 7; if (t) *t = v; return v; }
'''},
  demo='''
so = os.path.join(TMP, 'tick.so')
sh(['gcc', '-shared', '-fPIC', '-o', so, os.path.join(HERE, 'tick.c')])
r = run('page { } page { } page { }\\n', args=['--timestamp=true', '--number_pages=false'], env={'LD_PRELOAD': so})
check(r.rc == 0, 'status')
t = [[x[2] for x in p.texts if x[2]] for p in r.pages]
check(t[0] == t[1] == t[2], 'times %s' % t)
'''),
dict(id='C18-straight-up', prop='C18',
  edits=[('stl-to-ps.cc', """  if (len > 1) {
    Eigen::RowVector2d c = center""", """  if (!(len <= 1)) {
    Eigen::RowVector2d c = center""")],
  needs="a dia with dir along an axis of the paper and 'at' exactly on that axis through the center",
  breaks='0/0 counts as room for a leader, so that the leader ends at nan',
  demo="""
m = solid(quad((0,0,0),(2,0,0),(2,2,0),(0,2,0)))
r = run('load m = "m.stl";\\npage { draw m { dia ( at = [1,4,0], dir = [0,1,0], center = [1,1,0] ); } }\\n', {'m.stl': m})
check(r.rc == 0, 'status')
check('nan' not in r.out, 'nan')
"""),
dict(id='C19-rad-g', prop='C19',
  edits=[('stl-to-ps.cc', '''      SYM_ERROR(*p_fmt) << "fmt argument for rad is the wrong type";
      return false;
    }
    auto user_fmt = absl::ParsedFormat<'f'>::New(fmt_str);
    if (!user_fmt) {
      SYM_ERROR(*p_fmt) << "Invalid fmt argument for rad: must be a '%f' type";
      return false;
    }
    fmt = std::move(*user_fmt);
''', '''      SYM_ERROR(*p_fmt) << "fmt argument for rad is the wrong type";
      return false;
    }
    auto user_fmt = absl::ParsedFormat<'f'>::NewAllowIgnored(fmt_str);
    if (!user_fmt) {
      SYM_ERROR(*p_fmt) << "Invalid fmt argument for rad: must be a '%f' type";
      return false;
    }
    fmt = std::move(*user_fmt);
''')],
  needs='a rad with a fmt without a conversion',
  breaks='rad accepts a fmt that does not show the value',
  demo='''
m = solid(quad((0,0,0),(2,0,0),(2,2,0),(0,2,0)))
r = run('load m = "m.stl";\\npage { draw m { rad ( at = [3,3,0], dir = [1,1,0], center = [1,1,0], fmt = "about" ); } }\\n', {'m.stl': m})
check(r.rc == 1, 'status %d' % r.rc)
'''),
dict(id='C20-buffer', prop='C20',
  edits=[('parser_support.cc', '''  const char* fn = filename ? filename->c_str() : "??";
  if (bl == el) {
    fprintf(stderr, "error %s:%d:[%d,%d]: %s\\n",  //
            fn, bl, bc, ec, msg.c_str());
  } else {
    fprintf(stderr, "error %s:%d:%d to %d:%d: %s\\n",  //
            fn, bl, bc, el, ec, msg.c_str());
  }
''', '''  const char* fn = filename ? filename->c_str() : "??";
  char where[256];
  if (bl == el) {
    snprintf(where, sizeof(where), "%s:%d:[%d,%d]", fn, bl, bc, ec);
  } else {
    snprintf(where, sizeof(where), "%s:%d:%d to %d:%d", fn, bl, bc, el, ec);
  }
  fprintf(stderr, "error %s: %s\\n", where, msg.c_str());
''')],
  needs='a script with a path of about 250 characters or more',
  breaks='the position is cut off after 255 characters',
  demo='''
p = '/'.join(['directory_%02d' % i for i in range(22)]) + '/in.script'
r = run('page { ]\\n', path=p)
check(r.rc == 1, 'status')
check(any(l.startswith('error %s:1:[7,8]: ' % p) for l in r.err.split('\\n')), r.err)
'''),
dict(id='C21-hidden-points', prop='C21',
  edits=[('stl.cc', '      PD hidden_points[5];', '      PD hidden_points[2 + 2];  // the ends and where it enters and leaves')],
  needs='an edge whose ends are hidden by a triangle and that crosses all three of its edges (through a vertex)',
  breaks='writes behind the end of an array on the stack',
  demo='''
build(['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'])
hit = 0
import itertools
# edges that begin and end on the outline of a triangle in front of them
front = [((0,0,1),(4,0,1),(0,4,1)), ((0,0,1),(4,0,1),(4,4,1)), ((0,0,1),(2,0,1),(1,2,1))]
for f in front:
    for a, b in itertools.permutations(f, 2):
        back = tri((a[0], a[1], 0), (b[0], b[1], 0), (9, 9.5, 0))
        r = run('load m = "m.stl";\\npage { draw m { } }\\n', {'m.stl': solid(tri(*f), back)}, env={'ASAN_OPTIONS': 'detect_leaks=0'})
        check(r.rc in (0, 1) and 'rror: ' not in r.err, 'status %d %s' % (r.rc, r.err[:400]))
        mid = tuple((a[k] + b[k]) / 2 for k in range(2))
        c = [p for p in f if p not in (a, b)][0]
        back = tri((mid[0], mid[1], 0), (c[0], c[1], 0), (9, -9.5, 0), normal=(0, 0, 1))
        r = run('load m = "m.stl";\\npage { draw m { } }\\n', {'m.stl': solid(tri(*f), back)}, env={'ASAN_OPTIONS': 'detect_leaks=0'})
        check(r.rc in (0, 1) and 'rror: ' not in r.err, 'status %d %s' % (r.rc, r.err[:400]))
'''),
dict(id='C08-seam-z', prop='C08',
  edits=[('stl.cc', """    if (geo::Order(l.first, r.first)) return true;
    if (geo::Order(r.first, l.first)) return false;
    return geo::Order(l.second, r.second);
""", """    if (l.first != r.first) return geo::Order(l.first, r.first);
    const Eigen::RowVector3d dl = l.second - l.first, dr = r.second - r.first;
    return dl.x() != dr.x() ? dl.x() < dr.x() : dl.y() < dr.y();
""")],
  needs='two edges from the same vertex to vertices that are one behind the other in the view',
  breaks='such edges count as one, with the faces of both, so that they can be taken for a smooth seam',
  demo="""
m = solid(tri((0,0,0),(3,0,0),(0,3,0)), tri((0,0,0),(0,-3,0),(3,0,.1)))
r = run('load m = "m.stl";\\npage { draw m { } }\\n', {'m.stl': m})
check(r.rc == 0, 'status')
check(has_line(r.pages[0], 288, 306, 504, 306), 'lines %s' % r.pages[0].lines)
"""),
dict(id='C22-endsolid', prop='C22',
  edits=[('stl.cc', """      solid++;
      continue;
""", """      solid++;
      if (solid == 2 && ret->facets.size() > 1) break;
      continue;
""")],
  needs='a file with more than one solid, the first of them with two facets or more',
  breaks='what follows the first solid is not read',
  demo="""
a, b, c = tri((0,0,0),(3,0,0),(0,3,0)), tri((0,0,0),(0,3,0),(-3,0,0)), tri((0,0,0),(-3,0,0),(0,-3,0))
one = run('load m = "m.stl";\\npage { draw m { } }\\n', {'m.stl': solid(a, b, c)})
two = run('load m = "m.stl";\\npage { draw m { } }\\n', {'m.stl': solid(a, b) + solid(c)})
check(one.rc == 0 and two.rc == 0, 'status')
check(sorted(one.pages[0].lines) == sorted(two.pages[0].lines), 'different')
"""),
]
