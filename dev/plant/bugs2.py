BUGS = [
dict(id='C01-last-draw', prop='C01',
  edits=[('stl-to-ps.cc', 'if (!draw->VisitNode(&visitor)) ok = false;', 'ok = draw->VisitNode(&visitor) && seen.empty();')],
  needs='a page with a mistake in a drawable that is not its last one',
  breaks='a later drawable that is fine makes up for one with a mistake: diagnostics, but pages and status 0',
  demo='''
m = solid(quad((0,0,0),(2,0,0),(2,2,0),(0,2,0)))
r = run('load m = "m.stl";\\npage { draw m { view = "Q"; } draw m { } }\\n', {'m.stl': m})
check(r.rc != 0, 'exit status %d' % r.rc)
check('showpage' not in r.out, 'wrote pages')
'''),
dict(id='C02-draw-hides', prop='C02',
  edits=[('stl-to-ps.cc', 'if (!draw->VisitNode(&visitor)) ok = false;', 'if (ok && !draw->VisitNode(&visitor)) ok = false;')],
  needs='mistakes in drawables of different pages',
  breaks='after the first drawable with a mistake no other one is looked at',
  demo='''
r = run('page {\\n text ["a"] { x = 1; }\\n}\\npage {\\n text ["b"] { y = 1; }\\n}\\n')
check(r.rc == 1, 'status')
check({2, 5} <= set(diags(r)), 'lines %s' % diags(r))
'''),
dict(id='C03-nul', prop='C03',
  edits=[('parser.cc', 'stl2ps_scan_bytes(file.data(), file.size(), scanner)', 'stl2ps_scan_string(file.c_str(), scanner)')],
  needs='a script with a NUL byte after what is a valid script by itself',
  breaks='the script is read up to the first NUL only, so that what follows is accepted unseen',
  demo="""
r = run(b'page { }\\n\\0 this is no script')
check(r.rc == 1, 'status %d' % r.rc)
"""),
dict(id='C04-dollar', prop='C04',
  edits=[('ps.cc', '''        (t.center ? "newpath $0 $1 moveto ($2) CenterText show\\n"
                  : "newpath $0 $1 moveto ($2) show\\n"),
        t.at.x(), t.at.y(), s);''', '''        absl::StrCat("newpath $0 $1 moveto (", s,
                     t.center ? ") CenterText show\\n" : ") show\\n"),
        t.at.x(), t.at.y());''')],
  needs='a text with a dollar sign and a digit',
  breaks='the string is part of the template, so that $0 in it becomes a coordinate',
  demo='''
r = run('page { text ["costs $0 or $1"] { } }\\n')
check(r.rc == 0, 'status')
check(has_text(r.pages[0], 'costs $0 or $1'), 'texts %s' % r.pages[0].texts)
'''),
dict(id='C04-two-pass', prop='C04',
  edits=[('ast.cc', '''        default:
          ret[t] = ret[f];
          break;
''', '''        default:
          ret[t] = ret[f];
          if (ret[f] == '\\\\' && ret[f + 1] == 'n') ret[++f, t] = '\\n';
          break;
''')],
  needs='an escaped backslash followed by the letter n',
  breaks='it is unescaped twice: a line break instead of a backslash and an n',
  demo='''
r = run(r'page { text ["C:\\\\new"] { } }' + '\\n')
check(r.rc == 0, 'status')
check(len([t for t in r.pages[0].texts if t[2]]) == 2, 'texts %s' % r.pages[0].texts)
'''),
dict(id='C05-view-case', prop='C05',
  edits=[('ast.cc', 'auto found = kViews.find(s);', 'auto found = kViews.find(s.size() > 2 ? s.substr(s.size() - 2) : s);')],
  needs='a view name that ends with a valid one',
  breaks='unknown view names such as "-X+" are accepted',
  demo='''
m = solid(quad((0,0,0),(2,0,0),(2,2,0),(0,2,0)))
r = run('load m = "m.stl";\\npage { draw m { view = "-Z+"; } }\\n', {'m.stl': m})
check(r.rc == 1, 'status %d' % r.rc)
'''),
dict(id='C06-strip', prop='C06',
  edits=[('stl-to-ps.cc', 'model.open(p + "/" + file, std::ios::in);', 'model.open(p + "/" + file.substr(file.find_first_not_of("./")), std::ios::in);')],
  needs='a model in the parent of a load path entry, or one with a name that begins with a dot',
  breaks='leading dots and slashes of a model path are dropped',
  demo='''
a = solid(quad((0,0,0),(2,0,0),(2,2,0),(0,2,0)))
b = solid(quad((0,0,0),(3,0,0),(3,3,0),(0,3,0)))
r = run('load m = "../m.stl";\\npage { draw m { } }\\n', {'top/m.stl': a, 'top/lib/m.stl': b}, ['--load_path=top/lib'])
check(r.rc == 0, 'status')
check(has_line(r.pages[0], 324, 234, 468, 234), 'not the model of the parent directory')
'''),
dict(id='C07-reversed', prop='C07',
  edits=[('stl.cc', '    norm = norm * -1;\n', '    if (n.z() == 0) norm = norm * -1;\n')],
  needs='a facet whose vertices are listed clockwise as seen from the side its normal points to',
  breaks='the side such a facet faces is taken from the order of its vertices',
  demo='''
up = tri((0,0,0),(0,2,0),(2,0,0), normal=(0,0,1))
r = run('load m = "m.stl";\\npage { draw m { } }\\n', {'m.stl': solid(up)})
check(r.rc == 0, 'status')
check(len(r.pages[0].lines) >= 5, 'the triangle is not drawn')
'''),
dict(id='C08-ridge', prop='C08',
  edits=[('stl.cc', 'if (ang < min_ang) continue;', 'if (std::abs(ang) < min_ang) continue;')],
  needs='two triangles that share an edge and face nearly opposite ways, both toward the viewer (a sharp ridge)',
  breaks='the ridge of a thin wedge seen from above is taken for a smooth seam',
  demo="""
m = solid(tri((0,0,20),(0,2,20),(-1,1,0)), tri((0,0,20),(1,1,0),(0,2,20)))
r = run('load m = "m.stl";\\npage { draw m { } }\\n', {'m.stl': m})
check(r.rc == 0, 'status')
check(has_line(r.pages[0], 396, 234, 396, 378), 'lines %s' % r.pages[0].lines)
"""),
dict(id='C09-unsorted', prop='C09',
  edits=[('stl.cc', '''      return (p.first - l.first).squaredNorm() <
             (p.first - r.first).squaredNorm();''', '''      return (p.first - l.second).squaredNorm() <
             (p.first - r.second).squaredNorm();''')],
  needs='an edge with a hidden part that lies within another one and comes before its end',
  breaks='hidden parts are sorted by where they end, so that the beginning of an outer one is drawn',
  demo='''
back = quad((-4,-.25,0),(4,-.25,0),(4,.25,0),(-4,.25,0))
big = tri((-3,-1,1),(3,-1,1),(0,4,1))
small = tri((-1,-1,2),(1,-1,2),(0,4,2))
r = run('load m = "m.stl";\\npage { draw m { scale = 1:2; } }\\n', {'m.stl': solid(back, big, small)})
check(r.rc == 0, 'status')
y = 306 + (-.25 - 1.5) * 36
for l in r.pages[0].lines:
    if abs(l[1] - y) < .01 and abs(l[3] - y) < .01:
        lo, hi = sorted((l[0], l[2]))
        check(hi <= 396 - 36 * 2 or lo >= 396 + 36 * 2, 'a hidden part is drawn %s' % (l,))
'''),
dict(id='C10-cache', prop='C10',
  edits=[('ast.cc', '  return geo::Rotate(a.x() * geo::PI / 180, a.y() * geo::PI / 180);', '''  static auto& cache = *new std::map<std::pair<int, int>, Eigen::Matrix3d>;
  return cache.emplace(std::pair<int, int>(a.x(), a.y()),
                       geo::Rotate(a.x() * geo::PI / 180, a.y() * geo::PI / 180))
      .first->second;''')],
  needs='two draws with views whose angles differ by less than a degree',
  breaks='views are remembered by whole degrees, so that the second draw is shown from the first one\'s',
  demo='''
m = solid(quad((0,0,0),(4,0,0),(4,2,0),(0,2,0)))
r = run('load m = "m.stl";\\npage { draw m { view = [30.25,0]; } }\\npage { draw m { view = [30.75,0]; } }\\n', {'m.stl': m})
check(r.rc == 0, 'status')
check(r.pages[0].lines != r.pages[1].lines, 'the same')
'''),
dict(id='C11-origin', prop='C11',
  edits=[('stl.cc', '  Eigen::RowVector3d minp = facets[0].edge[0];', '  Eigen::RowVector3d minp = geo::point::zero;')],
  needs='a model that does not contain its origin',
  breaks='the bounding box always includes the origin, so that such a model is not centered',
  demo='''
m = solid(quad((5,5,0),(7,5,0),(7,7,0),(5,7,0)))
r = run('load m = "m.stl";\\npage { draw m { } }\\n', {'m.stl': m})
check(r.rc == 0, 'status')
check(has_line(r.pages[0], 324, 234, 468, 234), 'lines %s' % r.pages[0].lines)
'''),
dict(id='C11-label', prop='C11',
  edits=[('stl-to-ps.cc', '''  t.str = absl::StrCat("R", absl::StrFormat(fmt, r));
  t.center = true;
  // Offset for width of text.  TODO deal with left side placements
  t.at.x() += (ps::kFontSize * 0.3 * (t.str.length() + 2)) / proj.scale;
''', '''  t.str = absl::StrCat("R", absl::StrFormat(fmt, r));
  t.center = true;
  // Offset for width of text.  TODO deal with left side placements
  t.at.x() += (ps::kFontSize * 0.3 * (t.str.length() + 2)) / 72;
''')],
  needs='a rad in a draw with a scale other than 1:1',
  breaks="the label's distance from 'at' grows and shrinks with the scale",
  demo='''
m = solid(quad((0,0,0),(2,0,0),(2,2,0),(0,2,0)))
def off(scale, k):
    r = run('load m = "m.stl";\\npage { draw m { scale = %s; rad ( at = [3,2,0], dir = [1,1,0], center = [1,1,0] ); } }\\n' % scale, {'m.stl': m})
    check(r.rc == 0, 'status')
    t = [t for t in r.pages[0].texts if t[2].startswith('R')][0]
    return t[0] - (396 + 2 * k)
check(abs(off('1:1', 72) - off('1:4', 18)) < .01, 'offsets %s' % [off('1:1', 72), off('1:4', 18)])
'''),
dict(id='C12-sign', prop='C12',
  edits=[('stl-to-ps.cc', 'double to_sign = to_at.dot(b) > 0 ? +1 : -1;', 'double to_sign = from_at.dot(b) > 0 ? +1 : -1;')],
  needs="a dim with 'at' between from and to across its direction",
  breaks='the extension line of the second point goes the wrong way, through the point and beyond the dimension line',
  demo='''
m = solid(quad((0,0,0),(4,0,0),(4,4,0),(0,4,0)))
r = run('load m = "m.stl";\\npage { draw m { dim ( at = [2,2,0], dir = [1,0,0], from = [0,4,0], to = [4,0,0] ); } }\\n', {'m.stl': m})
check(r.rc == 0, 'status')
check(has_line(r.pages[0], 396 + 144, 306 + 4, 396 + 144, 306 - 144 + 2), 'lines %s' % r.pages[0].lines)
'''),
dict(id='C12-room', prop='C12',
  edits=[('stl-to-ps.cc', 'if (gap * 2 < dim_value * proj.scale) {', 'if (gap * 2 * proj.scale < dim_value * proj.scale) {')],
  needs='a dim that is a little shorter or longer than its label, at a scale of more than 72 points per unit or so',
  breaks='whether the label fits is decided in different units for the label and the dimension',
  demo='''
m = solid(quad((0,0,0),(.2,0,0),(.2,4,0),(0,4,0)))
a = run('load m = "m.stl";\\npage { draw m { dim ( at = [.5,5,0], dir = [1,0,0], from = [0,4,0], to = [1,4,0] ); } }\\n', {'m.stl': m})
check(a.rc == 0, 'status')
# 72 points are room enough for 5 characters
y = 306 + 3 * 72
inner = [l for l in a.pages[0].lines if abs(l[1] - y) < .01 and abs(l[3] - y) < .01]
xs = sorted(x for l in inner for x in (l[0], l[2]))
check(len(inner) == 2 and xs[3] - xs[0] < 73, 'lines %s' % inner)
'''),
dict(id='C13-gap', prop='C13',
  edits=[('stl-to-ps.cc', '''    to_dir = to_dir.normalized();
    to_point = apex;
''', '''    to_dir = to_dir.normalized();
    to_point = from_point;
''')],
  needs='an angle with from_point and to_dir',
  breaks='the second extension line begins at the first point instead of the apex',
  demo='''
m = solid(quad((0,0,0),(4,0,0),(4,4,0),(0,4,0)))
r = run('load m = "m.stl";\\npage { draw m { angle ( at = [2,2,0], apex = [0,0,0], from_point = [1,0,0], to_dir = [0,1,0] ); } }\\n', {'m.stl': m})
check(r.rc == 0, 'status')
check(any(abs(l[0] - 252) < .01 and abs(l[1] - 164) < .01 for l in r.pages[0].lines), 'lines %s' % r.pages[0].lines)
'''),
dict(id='C14-equal', prop='C14',
  edits=[('ast.cc', 'std::multimap<double, Eigen::RowVector2d> c;', 'std::map<double, Eigen::RowVector2d> c;')],
  needs='vertices at exactly the same distance from the target',
  breaks='only one of several vertices at the same distance is used, so that points farther away are taken instead',
  demo="""
m = solid(quad((-1,-1,0),(1,-1,0),(1,1,0),(-1,1,0)), tri((5,0,0),(9,1,0),(9,4,0)))
r = run('load m = "m.stl";\\npage { draw m { rad ( at = [3,3,0], dir = [1,1,0], center = [0,0,0] ); } }\\n', {'m.stl': m})
check(r.rc == 0, 'status %s' % r.err)
check(has_text(r.pages[0], 'R1.414'), 'texts %s' % r.pages[0].texts)
"""),
dict(id='C15-del', prop='C15',
  edits=[('ast.cc', 'const double del = 0.1;', 'const double del = 0.2;')],
  needs='vertices that are between 10% and 20% off the circle',
  breaks='center() takes more vertices for part of the circle than dia does',
  demo="""
import math
def at(a, r): return (r * math.cos(math.radians(a)), r * math.sin(math.radians(a)), 0)
m = solid(tri(at(0, 5), at(90, 5), at(200, 5)), tri(at(30, 5.8), at(50, 5.8), at(70, 5.8)))
r = run('load m = "m.stl";\\npage { draw m { scale = 1:4; dim ( at = [0,8,0], dir = [1,0,0], from = [-5,0,0], to = center([0,0,0]) ); } }\\n', {'m.stl': m})
check(r.rc == 0, 'status %s' % r.err)
check(has_text(r.pages[0], '5.000'), 'texts %s' % r.pages[0].texts)
"""),
dict(id='C16-scale', prop='C16',
  edits=[('stl-to-ps.cc', '''  proj.scale = 72.0 * scales.first / scales.second;
''', '''  if (proj.scale == 0 || scales.first != scales.second) {
    proj.scale = 72.0 * scales.first / scales.second;
  }
''')],
  needs='a draw without a scale after one with a scale',
  breaks='a draw without a scale keeps the scale of the one before',
  demo='''
m = solid(quad((0,0,0),(2,0,0),(2,2,0),(0,2,0)))
r = run('load m = "m.stl";\\npage { draw m { scale = 1:2; } }\\npage { draw m { } }\\n', {'m.stl': m})
check(r.rc == 0, 'status')
check(has_line(r.pages[1], 324, 234, 468, 234), 'lines %s' % r.pages[1].lines)
'''),
dict(id='C17-int-box', prop='C17',
  edits=[('stl-to-ps.cc', '  float text_at = 784', '  int text_at = 784')],
  needs='a page name whose width is not a whole number of points',
  breaks='the title and its box are up to a point too far left',
  demo='''
r = run('page { name = "a"; }\\n')
check(r.rc == 0, 'status')
t = [t for t in r.pages[0].texts if t[2] == 'a'][0]
check(abs(t[0] - (784 - 4.8)) < .01, 'at %s' % (t,))
'''),
dict(id='C17-count', prop='C17',
  edits=[('stl-to-ps.cc', 'ps::PageHeader(++page_number, pages.size(), out);', 'ps::PageHeader(++page_number, pages.capacity(), out);')],
  needs='a number of pages that is not a power of two',
  breaks='"page N of M" shows the capacity of the vector',
  demo='''
r = run('page { } page { } page { }\\n')
check(r.rc == 0, 'status')
check(has_text(r.pages[2], 'page 3 of 3'), 'texts %s' % r.pages[2].texts)
'''),
dict(id='C18-zero-dim', prop='C18',
  edits=[('stl-to-ps.cc', 'Eigen::RowVector3d{length.x(), length.y(), 0}.normalized() / proj.scale;', 'Eigen::RowVector3d{length.x(), length.y(), 0} / std::hypot(length.x(), length.y()) / proj.scale;')],
  needs='a dim of length zero on paper',
  breaks='0/0 is written to the output as nan',
  demo="""
m = solid(quad((0,0,0),(2,0,0),(2,2,0),(0,2,0)))
r = run('load m = "m.stl";\\npage { draw m { dim ( at = [1,3,0], dir = [0,0,1], from = [0,0,0], to = [0,0,5] ); } }\\n', {'m.stl': m})
check(r.rc == 0, 'status')
check('nan' not in r.out, 'nan')
"""),
dict(id='C19-empty', prop='C19',
  edits=[('stl-to-ps.cc', '''      SYM_ERROR(*p_fmt) << "fmt argument for dim is the wrong type";
      return false;
    }
    auto user_fmt = absl::ParsedFormat<'f'>::New(fmt_str);
''', '''      SYM_ERROR(*p_fmt) << "fmt argument for dim is the wrong type";
      return false;
    }
    auto user_fmt = absl::ParsedFormat<'f'>::New(fmt_str.empty() ? "%.3f" : fmt_str);
''')],
  needs='a dim with an empty fmt',
  breaks='an empty fmt is taken for none at all instead of being rejected',
  demo='''
m = solid(quad((0,0,0),(2,0,0),(2,2,0),(0,2,0)))
r = run('load m = "m.stl";\\npage { draw m { dim ( at = [1,3,0], dir = [1,0,0], from = [0,0,0], to = [2,0,0], fmt = "" ); } }\\n', {'m.stl': m})
check(r.rc == 1, 'status %d' % r.rc)
'''),
dict(id='C20-format', prop='C20',
  edits=[('parser_support.cc', '''    fprintf(stderr, "error %s:%d:%d to %d:%d: %s\\n",  //
            fn, bl, bc, el, ec, msg.c_str());''', '''    fprintf(stderr, "error %s:%d:%d to %d:%d: ", fn, bl, bc, el, ec);
    fprintf(stderr, (msg + "\\n").c_str());''')],
  needs='a message about several lines with a percent sign in it',
  breaks='the message is used as a format',
  extra={'m.cc': '''#include "stl-to-ps/parser_support.h"
int main() {
  std::string f = "a.script";
  stl2ps::error(&f, 1, 2, 3, 4, "100%% of %5d");
}
'''},
  demo='''
exe = os.path.join(TMP, 'm')
sh(['g++', '-std=c++17', '-w', '-I' + os.path.join(HERE, 'shim'), '-I' + REPO, '-I/usr/include/eigen3', os.path.join(HERE, 'm.cc'), os.path.join(SRC, 'parser_support.cc'), '-o', exe])
p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
check(p.stderr == b'error a.script:1:2 to 3:4: 100%% of %5d\\n', p.stderr)
'''),
dict(id='C22-window', prop='C22',
  edits=[('stl.cc', '      edge_face[idx].second = f;', '      if (f - edge_face[idx].first < 64) edge_face[idx].second = f;')],
  needs='two adjacent triangles that are 64 or more facets apart in the file',
  breaks='their seam is drawn as if each were alone',
  demo='''
import math
n = 80
p = [(2 * math.cos(2 * math.pi * i / n), 2 * math.sin(2 * math.pi * i / n), 0) for i in range(n)]
fs = [tri((0,0,0), p[i], p[(i + 1) % n]) for i in range(n)]
r = run('load m = "m.stl";\\npage { draw m { } }\\n', {'m.stl': solid(*fs)})
check(r.rc == 0, 'status')
spokes = [l for l in r.pages[0].lines if any(abs(l[k] - 396) < .01 and abs(l[k + 1] - 306) < .01 for k in (0, 2))]
check(not spokes, 'spokes are drawn: %s' % spokes)
'''),
]
