SEEDS = []


def seed(id, property, edits, needs, breaks, demo, also=()):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, also=list(also)))


seed("c05_cache_row", "C05", [("generic.py", "if i0 != i0_old or j0 != j0_old:", "if i0 != i0_old or (j0 != j0_old and not masked):")],
     "two consecutive positions in the same column where the first one falls in a masked or outside cell and the second one, in another row, does not",
     "a masked state is reused for the next position: valid positions get nan",
     """
import numpy as np, sys
from py_eddy_tracker.generic import interp2d_geo
xg, yg = np.arange(0., 5.), np.arange(0., 6.)
z = np.arange(30.).reshape(5, 6); m = np.zeros((5, 6), dtype=bool); m[1, 1] = True
x, y = np.array([1.5, 1.5]), np.array([1.5, 3.5])
r = interp2d_geo(xg, yg, z, m, x, y)
alone = interp2d_geo(xg, yg, z, m, x[1:], y[1:])
assert np.isnan(r[0]) and r[1] == alone[0], (r, alone)
""")

seed("c01_cut_prev", "C01", [("generic.py", "            x_previous, new_x_previous = x_, new_x\n", "                new_x_previous = new_x\n            x_previous = x_\n")],
     "cut wrapping of a line with a nan gap where the line resumes on the other side of the reference meridian, followed by another valid point",
     "the wrapped longitude of the previous point is not refreshed after a gap: a break is inserted where the line does not cross the meridian",
     """
import numpy as np
from py_eddy_tracker.generic import wrap_longitude
x = np.array([10., np.nan, 350., 351.]); y = np.zeros(4)
xo, yo = wrap_longitude(x, y, -180, cut=True)
assert xo.shape[0] == 4, xo
""")

seed("c07_tie", "C07", [("generic.py", "        while x_ > x_max and j_max < nb_pt:", "        while x_ >= x_max and j_max < nb_pt and (x_ > x_max or j_max + 1 < nb_pt):")],
     "a value exactly on the upper bound of a window that is not the last one",
     "values equal to the upper bound of a window are dropped from it, except for the last window",
     """
import numpy as np
from py_eddy_tracker.generic import window_index
o, a, b = window_index(np.array([0., 1., 2.]), np.array([0., 1.]), 1.0)
assert sorted(o[a[0]:b[0]]) == [0, 1] and sorted(o[a[1]:b[1]]) == [1, 2], (o, a, b)
""")

seed("c02_first_gap", "C02", [("generic.py", "            first_index[group - i0 + 1 : next_group - i0 + 1] = i + 1", "            first_index[min(group - i0 + 1, next_group - i0) : next_group - i0 + 1 if next_group - group < 3 else next_group - i0] = i + 1")],
     "group ids with a hole of two or more consecutive unused ids",
     "the slot of the first used id after a large hole starts at observation 0",
     """
import numpy as np
from py_eddy_tracker.generic import build_index
f, l, i0 = build_index(np.array([1, 1, 4, 4, 5]))
g = np.array([1, 1, 4, 4, 5])
for k in range(f.size):
    assert (g[f[k]:l[k]] == k + i0).all() and (l[k] - f[k]) == (g == k + i0).sum(), (k, f, l)
""")
seed("c04_simplify_gap", "C04", [("generic.py", "            last_nan = True\n", "            last_nan = True\n            x_previous = x_ if x_ == x_ else x_previous\n")],
     "a point whose longitude is valid and latitude is nan, followed by a point close to it in longitude but far from the last point kept",
     "half-valid points become the reference of the next comparison",
     """
import numpy as np
from py_eddy_tracker.generic import simplify
nan = np.nan
x, y = np.array([0., 1., 1.05]), np.array([0., nan, 0.])
xs, ys = simplify(x, y, 0.1)
assert np.isclose(np.nanmax(xs), 1.05), (xs, ys)
""")
seed("c06_wrap_dlon", "C06", [("generic.py", "            if dlon > 180:\n                dlon = absolute((dlon + 180) % 360 - 180)", "            if dlon > 180:\n                dlon = absolute(360 - dlon)")],
     "longitudes more than one turn apart (for instance -190 and 530)",
     "pairs more than a turn apart in longitude are measured with a wrong separation or dropped",
     """
import numpy as np
from py_eddy_tracker.generic import distance_grid
a = lambda v: np.array([v], dtype='f8')
d = distance_grid(a(-190.), a(10.), a(531.), a(10.))
e = distance_grid(a(0.), a(10.), a(1.), a(10.))
assert np.allclose(d, e), (d, e)
""")
seed("c03_counter", "C03", [("generic.py", "        if tr != tr_previous:\n            d_cum = 0\n", "        if tr > tr_previous:\n            d_cum = 0\n")],
     "a track id array where the id decreases at a change of track",
     "the cumulative sum leaks from one track into the next when ids are not increasing",
     """
import numpy as np
from py_eddy_tracker.generic import cumsum_by_track
r = cumsum_by_track(np.array([1., 1., 1.]), np.array([2, 2, 1]))
assert list(r) == [1, 2, 1], r
""")
seed("c08_box_break", "C08", [("poly.py", "                if i_box < 0 or i_box >= nb_bloc:\n                    continue\n", "                if i_box < 0 or i_box >= nb_bloc:\n                    break\n")],
     "an outline that spans several one-degree rows whose first row lies before the first populated box of the table",
     "the scan of a column stops at the first box out of the table: positions in the upper rows of the outline are reported outside",
     """
import numpy as np
from py_eddy_tracker.poly import poly_indexs
x_c, y_c = np.array([[10.2, 10.8, 10.8, 10.2, 10.2]]), np.array([[0.5, 0.5, 3.5, 3.5, 0.5]])
r = poly_indexs(np.array([10.5]), np.array([3.2]), x_c, y_c)
assert r[0] == 0, r
""")
seed("c08_mesh_clockwise", "C08", [("poly.py", "                if winding_number_poly(x, y, vertice):\n", "                if winding_number_poly(x, y, vertice) > 0:\n")],
     "an outline described clockwise",
     "no particle is created in outlines described clockwise",
     """
import numpy as np
from py_eddy_tracker.poly import create_meshed_particles
x = np.array([[-0.3, 1.2, 1.2, -0.3, -0.3]]); y = np.array([[-0.6, -0.6, 0.6, 0.6, -0.6]])
a = create_meshed_particles(x, y, 0.5)
b = create_meshed_particles(x[:, ::-1].copy(), y[:, ::-1].copy(), 0.5)
assert a[0].size == 9 and b[0].size == 9, (a, b)
""")
seed("c08_pixel_ref", "C08", [("poly.py", "        i_x %= x_size\n", "        i_x[i_x >= x_size] -= x_size - (1 if i_x1 == 1 else 0)\n")],
     "a grid window that wraps over the first column with exactly one column after the wrap",
     "the nodes past the last column are attributed to the second column",
     """
import numpy as np
from py_eddy_tracker.poly import get_pixel_in_regular
xc, yc = np.arange(0., 360., 10.), np.arange(-20., 21., 10.)
v = np.array([[-15., -5.], [5., -5.], [5., 5.], [-15., 5.]])
i, j = get_pixel_in_regular(v, xc, yc, 34, 1, 1, 4)
assert sorted(i) == [0, 35], i
""")
seed("c09_convex_last", "C09", [("poly.py", "    for i in range(2, nb):\n        # shift position", "    for i in range(2, nb - 1):\n        # shift position")],
     "an outline whose only reflex corner is the last vertex before the closing one",
     "the corner before the closing vertex is not tested",
     """
import numpy as np
from py_eddy_tracker.poly import convex
x, y = np.array([0., 2., 2., 1., 0.]), np.array([0., 0., 2., .5, 0.])
assert convex(x, y) == False
""")
seed("c09_shape_clip", "C09", [("poly.py", "        if rd < 1:\n            x[i] = x0 + dx * rd\n            y[i] = y0 + dy * rd\n", "        if rd < 1:\n            x[i] = x0 + dx * rd\n            y[i] = y0 + dy * min(rd, r / abs(dx)) if dx else y0 + dy\n")],
     "a vertex outside the circle exactly above or below its center",
     "vertices outside the circle on the vertical line of the center are not clipped to the circle",
     """
import numpy as np
from py_eddy_tracker.poly import shape_error, poly_area
x, y = np.array([-1., 0., 1., 0., -1.]), np.array([0., -3., 0., 3., 0.])
e = shape_error(x, y, 0., 0., 1.)
assert np.isclose(e, 100 + (6. - 2 * 2.) / np.pi * 100), e
""")
seed("c10_bbox_side", "C10", [("poly.py", "            if abs(x_in_min - x1_min_) > 180:\n", "            if abs(x_in_min - x1_min_) > 180 and x_in_max < 360:\n")],
     "an outline of the first list that extends past 360 compared with one written in [0, 360)",
     "outlines over 360 degrees are no longer compared with outlines written one turn before",
     """
import numpy as np
from py_eddy_tracker.poly import bbox_intersection
x0 = np.array([[358., 362., 362., 358.]]); x1 = np.array([[1., 3., 3., 1.]]); y = np.array([[0., 0., 1., 1.]])
i, j = bbox_intersection(x0, y, x1, y)
assert list(i) == [0], i
""")
seed("c10_hybrid", "C10", [("poly.py", "                and (intersection / min(p0_area_, p1_area_)) > 0.99\n", "                and (intersection / (p1_area_ if p1_area else p0_area_)) > 0.99\n")],
     "hybrid score with a second outline fully included in a much larger first one",
     "with the hybrid option a small outline included in a bigger one of the first list is dropped",
     """
import numpy as np
from py_eddy_tracker.poly import vertice_overlap
x0 = np.array([[0., 10., 10., 0.]]); y0 = np.array([[0., 0., 10., 10.]])
x1 = np.array([[1., 2., 2., 1.]]); y1 = np.array([[1., 1., 2., 2.]])
c = vertice_overlap(x0, y0, x1, y1, hybrid_area=True, min_overlap=0.5)
assert np.isclose(c[0], 0.01), c
""")

seed("c11_direction_turn", "C11", [("observations/tracking.py", "            lon_end = (lon_end - (lon_start - 180)) % 360 + lon_start - 180\n", "            lon_end = (lon_end - (lon_start - 180)) % 360 + (lon_start - 180 if direction == \"W\" else lon_start % 360 - 180)\n")],
     "a selection of eastward tracks in a dataset with a negative longitude",
     "longitudes of the end of the tracks are not brought to the turn of the start: eastward tracks starting at a negative longitude are displaced by a whole turn",
     """
import numpy as np
from py_eddy_tracker.observations.tracking import TrackEddiesObservations
e = TrackEddiesObservations.new_like(TrackEddiesObservations(0), 6)
e.sign_type = 1
e.track[:] = [1, 1, 2, 2, 3, 3]
e.time[:] = [0, 1, 0, 1, 0, 1]
e.lon[:] = [-50, -51, 10, 12, -20, -18]
e.lat[:] = 0
r = e.extract_in_direction("E", value=1)
assert list(r.track) == [2, 2, 3, 3], r.track
""")

seed("c12_median_if", "C12", [("observations/tracking.py", "        while x[i] - x[i_previous] > half_window or cur_track != track[i_previous]:\n            i_previous += 1\n",
     "        if x[i] - x[i_previous] > half_window or cur_track != track[i_previous]:\n            i_previous = i_previous + 1 if cur_track == track[i_previous] else i\n")],
     "a track with irregular dates, where two observations leave the window at once",
     "the window of the median keeps an observation farther than half a window in the past",
     """
import numpy as np
from py_eddy_tracker.observations.tracking import track_median_filter
x = np.array([0., 1., 2., 3., 10., 11.]); y = np.array([0., 1., 2., 3., 50., 70.])
r = track_median_filter(2., x, y, np.ones(6, dtype="i4"))
assert r[4] == 60 and r[5] == 60, r
""")

seed("c13_triplet", "C13", [("observations/network.py", "            idx_m0_stop = i_stop[m][i]\n", "            idx_m0_stop = i_stop[m]\n")],
     "triplets of merging events, when the order of the mergings in time is not the order of the segments",
     "the eddy stopped by the merging is the one of another merging",
     """
import numpy as np
from py_eddy_tracker.observations.network import NetworkObservations
e = NetworkObservations(9, track_extra_variables=["segment", "next_obs", "previous_obs", "next_cost", "previous_cost"])
e.sign_type = 1
e.track[:] = 1
e.segment[:] = [1, 1, 1, 1, 1, 2, 2, 2, 3]
e.time[:] = [0, 1, 2, 3, 4, 0, 1, 2, 0]
e.next_obs[:] = [1, 2, 3, 4, -1, 6, 7, 3, 1]
e.previous_obs[:] = [-1, 0, 1, 2, 3, -1, 5, 6, -1]
t, p, s = e.merging_event(triplet=True, only_index=True)
assert [(int(a), int(b)) for a, b in zip(t, s)] == [(1, 8), (3, 7)], (t, s)
""")

seed("c14_merge_first", "C14", [("observations/network.py", "            # case where 2 obs have a different group\n            m = gr_i[ii] != gr_j[ij]\n", "            # case where 2 obs have a different group\n            m = (gr_i[ii] != gr_j[ij]) * (ij >= ii.min())\n")],
     "two files where an observation of the first one with a large index meets one of the second with a smaller index than all the observations paired of the first, both already in different groups",
     "two groups in interaction are not joined",
     """
import numpy as np
from py_eddy_tracker.observations.network import Network
n = Network.__new__(Network)
a = lambda *v: np.array(v)
# file 0: 0 and 1, file 1: 0 and 1, file 2: 0.
res = [(0, 1, a(0, 1), a(0, 1)), (0, 2, a(1), a(0)), (1, 2, a(1), a(0)), (2, 3, a(0), a(0)), (1, 3, a(0, 1), a(1, 1))]
g0 = n.get_group_array([(0, 1, a(0, 1), a(0, 1)), (1, 2, a(1), a(0)), (0, 2, a(0), a(0))], [2, 2, 1])
assert len(set(g0.tolist())) == 1, g0
g1 = n.get_group_array([(0, 1, a(0, 1), a(0, 1)), (1, 2, a(0, 1), a(1, 2)), (0, 2, a(1), a(1))], [2, 2, 3])
assert g1[0] == g1[1] == g1[2] == g1[3], g1
g2 = n.get_group_array([(0, 1, a(0, 3), a(0, 1)), (0, 2, a(3), a(2)), (1, 2, a(0), a(0)), (0, 2, a(3), a(0))], [4, 2, 3])
assert g2[0] == g2[3] == g2[4] == g2[5] == g2[6] == g2[8], g2
""")

seed("c15_survivors", "C15", [("observations/groups.py", "        i_end_ = i_end[i]\n        i_start_ = i_start[i]\n        ref[i_start_] += 1\n        if i_end_ != -1:\n            counts[i_start_, i_end_] += 1\n",
     "        i_end_ = i_end[i]\n        i_start_ = i_start[i]\n        if i_end_ == -1:\n            continue\n        ref[i_start_] += 1\n        counts[i_start_, i_end_] += 1\n")],
     "particles of an origin which end in no outline",
     "percents are those of the particles which reached an outline, not those of the particles of the origin",
     """
import numpy as np
from py_eddy_tracker.observations.groups import get_targets
t, p = np.full((1, 2), -1, dtype="i4"), np.zeros((1, 2))
get_targets(np.zeros(4, dtype="i4"), np.array([0, 0, 1, -1], dtype="i4"), t, p, 2)
assert p[0, 0] == 50 and p[0, 1] == 25, p
""")

seed("c16_cache_out", "C16", [("dataset/grid.py", "                # Need to be stored only on change\n                i0_old, j0_old = i0, j0\n                if not is_circular and (i0 < 0 or i0 > nb_x_):\n                    masked = True\n                else:\n                    masked,",
     "                if not is_circular and (i0 < 0 or i0 > nb_x_):\n                    masked = True\n                else:\n                    # Need to be stored only on change\n                    i0_old, j0_old = i0, j0\n                    masked,")],
     "a grid which does not close on itself, a particle out of the grid between two particles of the same cell",
     "a particle well inside the grid is lost because the one before is out of the grid",
     """
import numpy as np
from py_eddy_tracker.dataset.grid import advect
xg, yg = np.arange(0., 6.), np.arange(0., 5.)
u = np.full((6, 5), .1); v = np.zeros((6, 5)); m = np.zeros((6, 5), dtype=bool)
x, y, mp = np.array([2.2, -3., 2.3]), np.array([2.5, 2.5, 2.5]), np.zeros(3, dtype=bool)
advect(xg, yg, u, v, m, x, y, mp, 1)
assert not mp[0] and mp[1] and not mp[2] and abs(x[2] - 2.4) < 1e-9, (x, mp)
""")

seed("c17_first_virtual", "C17", [("tracking.py", '            correspondance["virtual"] = i_previous >= nb_real_obs\n', '            correspondance["virtual"] = i_previous > nb_real_obs\n')],
     "tracking with a prolongation, and a track found again from the first of the virtual observations of the date",
     "the first virtual observation is taken for a real one, the track is cut and observations are lost",
     """
import numpy as np, tempfile, os
from py_eddy_tracker.observations.observation import EddiesObservations
from py_eddy_tracker.tracking import Correspondances
extra = ["shape_error_s", "shape_error_e"]
def day(t, xs):
    n = len(xs)
    e = EddiesObservations(n, track_extra_variables=["cost_association"] * 0, track_array_variables=8, array_variables=["contour_lon_s", "contour_lat_s", "contour_lon_e", "contour_lat_e"])
    e.sign_type = 1
    for f in e.fields:
        if "contour" not in f:
            e[f][:] = 1
    e.time[:] = t
    e.lon[:] = xs
    e.lat[:] = 20
    e["radius_s"][:] = e["radius_e"][:] = 50000
    e.amplitude[:] = .1
    e.speed_average[:] = .2
    a = np.linspace(0, 2 * np.pi, 8)
    for k in "se":
        e["contour_lon_" + k][:] = np.array(xs)[:, None] + .5 * np.cos(a)
        e["contour_lat_" + k][:] = 20 + .5 * np.sin(a)
    return e
with tempfile.TemporaryDirectory() as d:
    files = []
    for t, xs in enumerate([[10., 50.], [10., 50.], [50.], [10., 50.], [10., 50.]]):
        f = os.path.join(d, f"d{t}.nc")
        day(20000 + t, xs).write_file(filename=f)
        files.append(f)
    c = Correspondances(datasets=files, virtual=2)
    c.track()
    c.prepare_merging()
    e = c.merge(raw_data=False)
    assert len(set(e.track.tolist())) == 2 and sorted(np.bincount(e.track).tolist()) == [5, 5], (e.track, e.time)
""")

seed("c18_monotonous", "C18", [("observations/observation.py", "            if (d < 0).any():\n", "            if x.size and x[-1] < x[0]:\n")],
     "values not sorted, the last of which is not smaller than the first",
     "values not sorted are taken for sorted: groups by bins mix values of several bins",
     """
import numpy as np
from py_eddy_tracker.observations.observation import EddiesObservations
e = EddiesObservations(5); e.sign_type = 1
e.time[:] = [0, 2, 1, 0, 2]
r = {float(b0): sorted(np.arange(5)[i].tolist()) for i, b0, b1 in e.iter_on("time")}
assert r == {0: [0, 3], 1: [2], 2: [1, 4]}, r
""")

seed("c19_column", "C19", [("observations/observation.py", "        if i_ != i0 or j_ != j0:\n", "        if i_ != i0:\n")],
     "two boxes of the same column with observations, and none in a box between them in the order of the rows",
     "observations of two boxes of the same column are counted together",
     """
import numpy as np
from py_eddy_tracker.observations.observation import grid_box_stat
xc, yc = np.arange(.5, 4), np.arange(.5, 5)
g, m = np.zeros((4, 5)), np.ones((4, 5), dtype=bool)
grid_box_stat(xc, yc, g, m, np.array([1.5, 1.5, 1.6]), np.array([.5, 2.5, 2.6]), np.array([1., 5., 7.]), False, 50)
assert not m[1, 0] and not m[1, 2] and g[1, 0] == 1 and g[1, 2] == 6, g
""")

seed("c20_buffer", "C20", [("observations/observation.py", "            sl_in = slice(i, min(i + buffer_size, i_stop))\n", "            sl_in = slice(i, i + buffer_size)\n")],
     "loading of a range of observations of a zarr file, which stops before the end of the file",
     "more observations are read than asked, which do not fit",
     """
import numpy as np, zarr
from py_eddy_tracker.observations.observation import EddiesObservations
h = np.arange(10.)
out = np.zeros(5)
EddiesObservations.copy_data_to_zarr(h, out, slice(2, 7), 5000, 1, False, None, None)
assert (out == h[2:7]).all(), out
out = np.zeros(5)
EddiesObservations.copy_data_to_zarr(h, out, slice(2, 7), 2, 1, False, None, None)
assert (out == h[2:7]).all(), out
""")

seed("c21_masked", "C21", [("dataset/grid.py", "                        if contour.reject == 0:\n                            contour.reject = 2\n                        continue\n", "                        if contour.reject == 0:\n                            contour.reject = 2\n                        break\n")],
     "an isoline around a gap of the field listed before the one of an eddy at the same height",
     "isolines following one around a masked node are not looked at: eddies of the same height are lost or smaller",
     """
import numpy as np, datetime, logging
from py_eddy_tracker.dataset.grid import RegularGridDataset
logging.disable(50)
x, y = np.arange(0., 20.01, .25), np.arange(10., 24.01, .25)
X, Y = np.meshgrid(x, y, indexing="ij")
b = lambda a, c: np.exp(-((X - a) ** 2 + (Y - c) ** 2) / 1.2 ** 2)
z = .5 * b(5, 15) + .5 * b(15, 20)
def run(mask):
    g = RegularGridDataset.with_array(coordinates=("x", "y"), datas=dict(x=x, y=y, h=np.ma.array(z, mask=mask), u=np.ma.array(np.gradient(z, axis=1)), v=np.ma.array(-np.gradient(z, axis=0))), centered=True)
    g.variables_description["h"]["attrs"]["units"] = "m"
    for k in "uv": g.variables_description[k]["attrs"]["units"] = "m/s"
    a, c = g.eddy_identification("h", "u", "v", datetime.datetime(2020, 1, 1), step=.02, pixel_limit=(4, 2000), shape_error=70)
    return a
no = np.zeros(z.shape, dtype=bool)
ref = run(no)
for a, c in ((5, 15), (15, 20)):
    m = (X - a) ** 2 + (Y - c) ** 2 < .01
    o = run(m)
    k = np.argmax(abs(ref.lon - a)); kk = np.argmax(abs(o.lon - a)) if len(o) else -1
    assert len(o) and abs(o.lon[kk] - ref.lon[k]) < .05 and abs(o.amplitude[kk] - ref.amplitude[k]) < 1e-3, (a, o.lon, o.amplitude, ref.lon, ref.amplitude)
""")

seed("c22_wrap", "C22", [("dataset/grid.py", "            if self.is_circular():\n                tmp_matrix[:d_lon, sl_lat_in] = data[-d_lon:, sl_lat_data]\n                tmp_matrix[-d_lon:, sl_lat_in] = data[:d_lon, sl_lat_data]\n            # Copy data\n            tmp_matrix[d_lon:-d_lon, sl_lat_in] = data[:, sl_lat_data]\n",
                          "            if self.is_circular() and i >= d_lat:\n                tmp_matrix[:d_lon, sl_lat_in] = data[-d_lon:, sl_lat_data]\n                tmp_matrix[-d_lon:, sl_lat_in] = data[:d_lon, sl_lat_data]\n            # Copy data\n            tmp_matrix[d_lon:-d_lon, sl_lat_in] = data[:, sl_lat_data]\n")],
     "a closed grid, a node near its edge in longitude and in one of its first rows (the kernel goes out of the grid to the south)",
     "nodes on the other side of the edge are left out of the mean in the first rows",
     """
import numpy as np, logging
from py_eddy_tracker.dataset.grid import RegularGridDataset
logging.disable(50)
x, y = np.arange(0, 360, 5.) + 2.5, np.arange(0, 40, 2.) + 1
z = np.random.RandomState(0).rand(x.size, y.size)
def run(k):
    g = RegularGridDataset.with_array(coordinates=("x", "y"), datas=dict(x=x, y=y, h=np.ma.array(np.roll(z, k, 0), mask=np.zeros(z.shape, dtype=bool))), centered=True)
    g.bessel_low_filter("h", 1500)
    return np.roll(g.grid("h"), -k, 0)
assert np.allclose(run(0), run(30)), np.abs(run(0) - run(30)).max(axis=0)
""")

seed("c22_order", "C22", [("dataset/grid.py", "            lat + self.ystep * half_y_pt * order + 0.01 * self.ystep,\n", "            lat + self.ystep * half_y_pt * order + self.ystep,\n")],
     "a step in latitude that is not a binary fraction (rounding decides on one more row), or an exact number of rows",
     "one more row in the half kernel than in the kernel",
     """
import numpy as np
from py_eddy_tracker.dataset.grid import RegularGridDataset
class G(RegularGridDataset):
    def __init__(self, x, y): self._x_step, self._y_step = x, y
for xs, ys in ((.25, .25), (.1, .1), (.3, .7), (1 / 3, 1 / 12.), (1 / 7, .1)):
    for lat in np.arange(-60, 60.01, 7.3):
        for w in (200, 313.7, 777):
            g = G(xs, ys)
            hx, hy, d = g.estimate_kernel_shape(lat, w, 1)
            assert d.shape == (hx + 1, 2 * hy + 1), (xs, ys, lat, w, d.shape, hx, hy)
""")

seed("c22_unbalanced", "C22", [("dataset/grid.py", "                if m1:\n                    grad[i, j] = (h0 - h_1) * d_\n", "                if m1:\n                    grad[i, j] = (h_1 - h0) * d_\n")],
     "a node whose next neighbour (eastward or northward) is masked or out of the grid, with a known previous one",
     "the current has the wrong sign along coasts and edges",
     """
import numpy as np, logging
from py_eddy_tracker.dataset.grid import RegularGridDataset
logging.disable(50)
x, y = np.arange(0, 10, .5), np.arange(10, 20, .5)
X, Y = np.meshgrid(x, y, indexing="ij")
g = RegularGridDataset.with_array(coordinates=("x", "y"), datas=dict(x=x, y=y, h=np.ma.array(.1 * Y, mask=Y == 15)), centered=True)
g.variables_description["h"]["attrs"]["units"] = "m"
g.add_uv("h")
u = g.grid("u")
assert (u[~u.mask] < 0).all(), u[3]
""")

seed("c22_extend", "C22", [("dataset/grid.py", "                        mask=kernel_sum < (extend * kernel.sum()),\n", "                        mask=kernel_sum <= (extend * kernel.sum()),\n")],
     "values asked for only where all the nodes around are known (extend=True), on a grid with gaps",
     "nodes with all the nodes around known are masked",
     """
import numpy as np, logging
from py_eddy_tracker.dataset.grid import RegularGridDataset
logging.disable(50)
x, y = np.arange(0, 360, 5.) + 2.5, np.arange(0, 40, 2.) + 1
m = np.zeros((x.size, y.size), dtype=bool); m[:10] = True
z = np.ma.array(np.random.RandomState(0).rand(x.size, y.size), mask=m)
g = RegularGridDataset.with_array(coordinates=("x", "y"), datas=dict(x=x, y=y, h=z), centered=True)
def box(lat, **kw): return np.ones((5, 5))
r = g.convolve_filter_with_dynamic_kernel("h", box, extend=True)
assert not r.mask[30, 10], r.mask[:, 10]
""")

_FILES = """
import numpy as np, logging, os, tempfile
from netCDF4 import Dataset
from py_eddy_tracker.dataset.grid import RegularGridDataset, GridCollection
logging.disable(50)
folder = tempfile.TemporaryDirectory()
def write(name, x, y, dims=("lat", "lon"), nt=1, **fields):
    p = os.path.join(folder.name, name)
    with Dataset(p, "w") as h:
        for d, v in (("lon", x), ("lat", y)):
            h.createDimension(d, len(v)); h.createVariable(d, "f8", (d,))[:] = v
        h.createDimension("time", nt)
        for k, a in fields.items():
            h.createVariable(k, "f8", dims, fill_value=1e20)[:] = a
    return p
"""

seed("c16_series_weight", "C16", [("dataset/grid.py", "            half_w = t_step / 2.0 / (t1 - t0)\n            advect_(\n", "            half_w = time_step / 2.0 / (t1 - t0)\n            advect_(\n")],
     "a backward advection of fourth order, in a series whose currents change with the date",
     "the middle and the end of each step are weighted on the wrong side of the date",
     _FILES + """
x, y = np.arange(0, 10.), np.arange(-5, 6.)
c = np.cos(np.radians(y))
paths = [write(f"{k}.nc", x, y, ("lon", "lat"), u=np.ones((10, 1)) * a * c, v=np.zeros((10, 11))) for k, a in enumerate((.1, .3, .9))]
g = GridCollection.from_netcdf_list(paths, [10, 11, 12], "lon", "lat")
def run(back):
    p, q = np.array([5.]), np.array([0.])
    gen = g.advect(p, q, u_name="u", v_name="v", t_init=12 if back else 10, nb_step=4, time_step=21600, backward=back)
    for _ in range(2):
        next(gen)
    return p[0] - 5
a, b = run(False), run(True)
assert abs(a + b) < 1e-9, (a, b)
""")

seed("c15_unsorted", "C15", [("observations/groups.py", "            indexs0 = i_sort[i_start[i] : i_end[i]]\n", "            indexs0 = arange(i_start[i], i_end[i])\n")],
     "observations that are not in the order of time (tracks one after the other)",
     "targets are computed from the outlines of another date and stored for other observations",
     _FILES + """
from py_eddy_tracker.observations.tracking import TrackEddiesObservations
x, y = np.arange(0, 10.), np.arange(-5, 6.)
z = np.zeros((10, 11))
paths = [write(f"{k}.nc", x, y, ("lon", "lat"), u=z, v=z) for k in range(4)]
g = GridCollection.from_netcdf_list(paths, [10, 11, 12, 13], "lon", "lat")
e = TrackEddiesObservations(size=8, track_array_variables=5, array_variables=["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"])
e.track[:] = [0] * 4 + [1] * 4
e.time[:] = [10, 11, 12, 13] * 2
for k in range(8):
    x0 = 2.1 + 3 * (k // 4)
    for t in "es":
        e["contour_lon_" + t][k] = [x0, x0 + 2, x0 + 2, x0, x0]
        e["contour_lat_" + t][k] = [-.9, -.9, 1.1, 1.1, -.9]
it, pc = e.particle_candidate_atlas(g, .5, 1, u_name="u", v_name="v")
for k in (0, 1, 4, 5):
    assert it[k, 0] == k + 1 and pc[k, 0] == 100, (it, pc)
""")

seed("c23_nan", "C23", [("dataset/grid.py", "                self.vars[varname] = ma.array(\n                    self.vars[varname],\n                    mask=isnan(self.vars[varname]),\n", "                self.vars[varname] = ma.array(\n                    self.vars[varname].data,\n                    mask=isnan(self.vars[varname].data),\n")],
     "a file with missing values, opened with nan masked too",
     "missing values are read as values (the fill value)",
     _FILES + """
x, y = np.arange(0, 5.), np.arange(0, 4.)
z = np.ma.arange(20.).reshape(4, 5); z[1, 2] = np.ma.masked; z[2, 3] = np.nan
g = RegularGridDataset(write("a.nc", x, y, z=z), "lon", "lat", nan_masking=True)
a = g.grid("z")
assert a.mask[2, 1] and a.mask[3, 2] and a.mask.sum() == 2, a
""")

seed("c23_index", "C23", [("dataset/grid.py", """                    indexs.get(
                        dim,
                        self.indexs.get(
                            dim, slice(None) if dim in coordinates_dims else 0
                        ),
                    )
""", """                    self.indexs.get(
                        dim,
                        indexs.get(dim, slice(None) if dim in coordinates_dims else 0),
                    )
""")],
     "an index asked for one field, on a grid opened with another index along the same dimension",
     "the field read is the one of the index given at the opening",
     _FILES + """
x, y = np.arange(0, 5.), np.arange(0, 4.)
z = np.arange(60.).reshape(3, 4, 5)
g = RegularGridDataset(write("a.nc", x, y, ("time", "lat", "lon"), nt=3, z=z), "lon", "lat", indexs=dict(time=1))
a = g.grid("z", indexs=dict(time=2))
assert np.array_equal(a.data, z[2].T), a
""")

seed("c23_previous", "C23", [("dataset/grid.py", "            if t > t_init:\n                continue\n            dataset.populate()\n", "            if t >= t_init:\n                continue\n            dataset.populate()\n")],
     "a series read backward from the date of one of its grids",
     "the grid of the starting date is skipped",
     _FILES + """
x, y = np.arange(0, 5.), np.arange(0, 4.)
paths = [write(f"{k}.nc", x, y, z=np.full((4, 5), float(k))) for k in range(3)]
g = GridCollection.from_netcdf_list(paths, [10, 12, 13], "lon", "lat")
assert [t for t, d in g.get_previous_time_step(12)] == [12, 10]
""")

seed("c23_alias", "C23", [("dataset/grid.py", "        self.vars[grid_out] = self.grid(grid_in).copy()\n", "        self.vars[grid_out] = self.grid(grid_in)\n")],
     "the copy of a field is filtered, or changed, then the field of origin is used",
     "both names share the same values",
     _FILES + """
x, y = np.arange(0, 5.), np.arange(0, 4.)
z = np.arange(20.).reshape(4, 5)
g = RegularGridDataset(write("a.nc", x, y, z=z), "lon", "lat")
g.grid("z")
g.copy("z", "w")
g.vars["w"] -= 1
assert np.array_equal(g.grid("z").data, z.T) and np.array_equal(g.grid("w").data, z.T - 1)
""")
