"""Property -> statement, anchors, contracts, lemmas, bounded stand-ins.  `python3-vt -m vc.gen` writes properties.jsonl and MANIFEST.json from this file."""
PROPS = {}


def prop(pid, title, statement, over, text, why, files, mech, contracts, lemmas=(), bounded=(), assumptions=(), level="proof", note="", not_covered=None, observe="values returned by the public functions and methods", state=(), bounded_note=()):
    PROPS[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, contracts=list(contracts), lemmas=list(lemmas), bounded=list(bounded),
                      assumptions=list(assumptions), level=level, note=note, not_covered=not_covered, observe=observe, state=list(state), bounded_note=list(bounded_note))


G = "src/py_eddy_tracker/generic.py"

prop("C01", "Longitude wrapping keeps every point, modulo whole turns",
     "Wrapping a polyline on a reference longitude returns the same points in the same order with unchanged latitudes, each longitude in [ref, ref+360) and equal to the original one modulo 360. "
     "With the cut option a break (nan separator, plus the two border points) is inserted exactly where two consecutive valid points end up on opposite sides of the reference meridian, and nowhere else.",
     ["inputs"], "every polyline (any length, nan gaps included), every reference longitude, cut or not",
     "one test wraps a couple of fixed arrays; the claim is about all longitudes, all references and any number and position of crossings",
     [G], [("wrap_longitude", G + ":wrap_longitude")], ["k_generic.wrap_plain", "k_generic.wrap_cut"])

prop("C02", "Group index tables delimit exactly the members of each group",
     "For observations sorted by group id, the index table gives for every id between the smallest and the largest one a contiguous slot, empty when the id is unused, holding exactly the observations of that id; the slots cover all observations in order. "
     "The complement of a list of indexes contains every other index once, in increasing order.",
     ["inputs"], "every sorted integer id array (gaps, negative ids, single group) and every list of indexes",
     "no test targets the tables directly; tracks, networks and grids all rely on them for any id distribution",
     [G], [("build_index", G + ":build_index"), ("reverse_index", G + ":reverse_index")], ["k_generic.build_index", "k_generic.reverse_index"], lemmas=["k_lemmas.sums"])

prop("C03", "Running counters restart exactly at interruptions",
     "The consecutive-event counter gives, at every observation, the number of uninterrupted True flags ending there (0 on a False flag). The per-track cumulative sum gives at every observation the sum of the field since the first observation of its contiguous run of equal track ids.",
     ["inputs"], "every flag array; every field and track id array of equal length",
     "the unit test covers one array; the claim holds for every segmentation, including track id 0 and a first observation with id 0",
     [G], [("count_consecutive", G + ":count_consecutive"), ("cumsum_by_track", G + ":cumsum_by_track")], ["k_generic.count_consecutive", "k_generic.cumsum_by_track"])

prop("C04", "Nan-separated polylines lose, add and reorder no point",
     "Flattening a matrix of contours yields all its points row by row with exactly one nan between consecutive rows (a single nan for an empty matrix), and splitting a line by group id keeps every point in order with exactly one nan at every change of id. "
     "Simplifying a line keeps the first valid point and each later valid point farther than the precision from the last point kept, and keeps one nan after each valid point that is followed by a gap once a point was kept; it drops everything else.",
     ["inputs"], "every matrix, polyline with gaps, id array and precision",
     "tests simplify two short lines; separators depend on the position of gaps, changes and sizes",
     [G], [("flatten_line_matrix", G + ":flatten_line_matrix"), ("split_line", G + ":split_line"), ("simplify", G + ":simplify")],
     ["k_generic.flatten_line_matrix", "k_generic.split_line", "k_generic.simplify"])

prop("C05", "Grid interpolation uses the right cells, across the date line too",
     "On a regular grid the nearest interpolation returns the value of the closest node and the bilinear interpolation the bilinear combination of the four surrounding nodes; the result is nan exactly when a needed node is outside the grid or (bilinear) masked. "
     "On a grid that closes on itself in longitude, positions any number of turns away use the same nodes, including the cell between the last and the first column; the value for one position never depends on the other positions of the request.",
     ["inputs", "configurations"], "every regular grid (circular or not), field, mask and list of positions",
     "tests interpolate one small grid; cell reuse between consecutive positions, masks and wrapping interact",
     [G], [("interp2d_nearest", G + ":interp2d_nearest"), ("interp2d_bilinear", G + ":interp2d_bilinear")],
     ["k_interp.interp2d_nearest", "k_interp.interp2d_bilinear"],
     assumptions=["positions closer than 1e7 cells to the grid and not nan; equality on cell borders is checked up to rounding in the replay"])

prop("C06", "Distances are great-circle distances on the reference sphere",
     "The distance between two positions is the great-circle distance on a sphere of radius 6370.997 km; it is symmetric, null for a position with itself and unchanged when a longitude is shifted by whole turns. "
     "The all-pairs form gives the same distance in km, and nan exactly for pairs more than 15 degrees apart in latitude or more than 20 degrees apart in longitude modulo 360.",
     ["inputs"], "every pair of positions, every pair of position lists",
     "no test compares distances with a reference; the cut-offs and the date line need every combination of longitudes",
     [G], [("distance", G + ":distance"), ("distance_grid", G + ":distance_grid")], ["k_dist.distance", "k_dist.distance_grid"],
     lemmas=["k_dist.distance_symmetric", "k_dist.distance_turn"],
     assumptions=["sin, cos and arctan2 are uninterpreted real functions in the proofs; the lemmas use sin(-x) = -sin(x), sin(x+pi) = -sin(x), sin(0) = 0, arctan2(0,1) = 0"])

prop("C07", "Sliding windows select exactly the values around each center",
     "For every window center x0 (centers sorted) the slot returned over the sorted order of the values holds exactly the values of ]x0 - h, x0 + h], whatever the order of the values; the order is a permutation of all values.",
     ["inputs"], "every list of values, sorted list of centers and half window (zero included)",
     "no test exercises windows that are empty, overlapping, past the last value or with repeated values",
     [G], [("window_index", G + ":window_index")], ["k_window.window_index"])

PO = "src/py_eddy_tracker/poly.py"
LM = ["k_lemmas.sums", "k_lemmas.imod"]
WL = ["k_lemmas.wn_prefix", "k_lemmas.wn_box"]

prop("C08", "Positions and grid nodes are attributed to the outline that contains them",
     "A position is inside an outline exactly when the outline winds around it, whatever the number of whole turns between their longitudes, with vertices repeated at the end of the outline making no difference. "
     "Each position is attributed to the first outline of the list that contains it (-1 when none does), and an outline is inside another when all its vertices are. "
     "The nodes of a regular grid window, and the particles of a mesh, returned for an outline are exactly those inside it, each once, also when the window crosses the first column of the grid.",
     ["inputs"], "every list of outlines (any number of vertices, padded or not, across the date line, narrower than 180 degrees) and positions; every grid and window",
     "tests check three points against one square; box indexes, turns, padding and window wrap-around interact",
     [PO], [("poly_indexs", PO + ":poly_indexs"), ("winding_number_poly", PO + ":winding_number_poly"), ("poly_contain_poly", PO + ":poly_contain_poly"), ("get_pixel_in_regular", PO + ":get_pixel_in_regular"), ("create_meshed_particles", PO + ":create_meshed_particles")],
     ["k_poly.is_left", "k_poly.winding_number_poly", "k_poly.poly_contain_poly", "k_poly.winding_grid", "k_poly.get_pixel_in_regular", "k_poly.create_vertice", "k_poly.create_vertice_2d", "k_poly.reduce_size", "k_poly.box_index", "k_poly.box_indexes",
      "k_poly.poly_indexs", "k_poly.insidepoly", "k_poly.create_meshed_particles"], lemmas=WL + LM,
     assumptions=["coordinates are not nan; latitudes in [-90, 90]", "termination of the mesh loops is not proved (partial correctness)"])

prop("C09", "Outline measures: area, convexity, shape error, simplification, hull",
     "The area of a closed outline is half of its absolute shoelace sum, and an outline is convex exactly when all its corners turn to the same side. "
     "The shape error is the area of outline and circle minus twice the area of the outline clipped radially to the circle, in percent of the circle area, and the fitted circle is the least-squares circle of the vertices. "
     "Dropping repeated end points keeps the rest of the outline as it is, the simplified outline is what is left after removing the vertex of the smallest triangle again and again, and the convex hull is a convex polygon of vertices of the outline that encloses all of them.",
     ["inputs"], "every closed outline", "tests measure two fixed polygons",
     [PO], [("poly_area", PO + ":poly_area"), ("convex", PO + ":convex"), ("shape_error", PO + ":shape_error"), ("fit_circle", PO + ":fit_circle"), ("visvalingam", PO + ":visvalingam"), ("get_convex_hull", PO + ":get_convex_hull")],
     ["k_poly.poly_area", "k_poly.poly_area_vertice", "k_poly.convex", "k_poly.convexs", "k_poly.tri_area2", "k_poly.shape_error", "k_poly.reduce_size"], lemmas=["k_lemmas.shoe_ext"],
     bounded=["bounded.visvalingam", "bounded.convex_hull", "bounded.fit_circle"],
     assumptions=["shape error: positive radius and no vertex exactly at the center"], bounded_note=["fit_circle (LAPACK least squares)", "visvalingam (heapq)", "get_convex_hull (needs simple outlines)"])

prop("C10", "Candidate pairs and overlap scores of outlines",
     "The candidate pairs of two lists of outlines are exactly those whose bounding boxes overlap, longitudes modulo 360, and the pairs of close centers exactly those within the given distance in both directions; each pair is listed once, in order. "
     "The similarity score of a pair is the shared area divided by the area of the union, or by the area of the smaller, the second or both outlines as asked, longitudes brought to the same turn, and is 0 under the minimal overlap.",
     ["inputs"], "every pair of lists of outlines and centers, every score option",
     "tests compute one overlap; the set of pairs depends on all boxes and turns",
     [PO], [("bbox_intersection", PO + ":bbox_intersection"), ("close_center", PO + ":close_center"), ("vertice_overlap", PO + ":vertice_overlap"), ("polygon_overlap", PO + ":polygon_overlap")],
     ["k_poly.bbox_intersection", "k_poly.close_center", "k_poly.get_wrap_vertice", "k_poly.create_vertice_2d", "k_overlap.overlap_union", "k_overlap.overlap_minimal", "k_overlap.overlap_p1", "k_overlap.overlap_hybrid", "k_overlap.polygon_overlap_union", "k_overlap.polygon_overlap_minimal"],
     assumptions=["the Polygon library returns the area of the intersection and of the union of two outlines", "outlines narrower than 90 degrees for candidate pairs"])

TR = "src/py_eddy_tracker/observations/tracking.py"
NW = "src/py_eddy_tracker/observations/network.py"
GR = "src/py_eddy_tracker/observations/groups.py"

prop("C11", "Tracks: tables, counts and selections keep exactly the right observations",
     "The tables of a dataset sorted by track give for every id the first observation and the number of observations of its track (0 for an unused id), flagged observations are counted for the track they belong to, and distances to the next observation never cross tracks. "
     "Selecting by mask, whole tracks, length, period, direction, box, date or id returns exactly the observations concerned, with all their fields, in order, with ids renumbered without gaps on request, and leaves its inputs unchanged. "
     "Normalised longitudes equal the original ones modulo 360, within half a turn of the first position of the track, contours around their center.",
     ["inputs"], "every dataset sorted by track (ids with gaps, single observations, virtual observations), every mask and option",
     "tests use one dataset of consecutive ids and two or three options; the options interact with gaps in ids, unused ids and virtual observations",
     [TR, GR], [("compute_index", TR + ":compute_index"), ("count_by_track", TR + ":TrackEddiesObservations.count_by_track"), ("compute_mask_from_id", TR + ":compute_mask_from_id"), ("extract_with_mask", TR + ":TrackEddiesObservations.extract_with_mask"), ("extract_in_direction", TR + ":TrackEddiesObservations.extract_in_direction")],
     ["k_track.compute_index", "k_track.count_by_track", "k_track.compute_mask_from_id", "k_dist.distance"] + ["k_select." + c for c in "length_both length_min length_max toward_west toward_east toward_west_all toward_east_all direction_N direction_S direction_E direction_W mask_from_id period_dates period_offsets period_from period_until period_mixed period_all lifetime distance_to_next copy_mask copy_full copy_full_virtual copy_complete".split()], lemmas=["k_lemmas.sums"],
     bounded=["bounded.tr_tables", "bounded.tr_selections", "bounded.tr_longitudes"],
     bounded_note=["extract_with_mask with compress_id, and the methods that normalise longitudes or compute tables of the object (numpy fancy indexing, in place); the chain from the file to the selection"])

prop("C12", "Smoothing along a track uses only the neighbours in that track",
     "The weighted smoothing of a field gives at every observation the mean of the values of the same track closer than the half window, with weights (1 - (d/h)^3)^3; the median filter gives the median of the values of the same track at most half a window away. "
     "Both use all such observations, including the first and last ones of the dataset, and no other; smoothing positions applies the median then the mean to both coordinates.",
     ["inputs"], "every field, abscissa and track id arrays (sorted by track, then abscissa), every half window",
     "the test checks a handful of points of one track; borders between tracks, borders of the dataset and gaps are not exercised",
     [TR], [("track_loess_filter", TR + ":track_loess_filter"), ("track_median_filter", TR + ":track_median_filter"), ("position_filter", TR + ":TrackEddiesObservations.position_filter")],
     ["k_track.track_loess_filter", "k_track.track_median_filter"], lemmas=["k_lemmas.tail"], bounded=["bounded.tr_smoothing"],
     bounded_note=["position_filter, loess_filter and median_filter (methods that call the proved kernels)"])

_KN = "trusted numbering of observations by the kernels under contract; methods of the class in bounded scenarios"
prop("C13", "Networks: selections keep links between the same observations",
     "Selecting networks, segments or observations, following links in time, and sorting a network keep every field of the observations selected; each link to the next or previous observation still designates the same observation, or none when it is not selected. "
     "Renumbering gives consecutive segment or network numbers without merging or splitting any. "
     "Births, deaths, mergings and splittings are exactly the ends of segments without or with a link, and two observations are in the same dissociated network exactly when their segments are connected.",
     ["inputs", "histories"], "every network (trash or not, any ids, links between segments of the same network), every selection",
     "tests use networks with one or two segments; link translation depends on gaps, trash, order and on which targets disappear",
     [NW, GR], [("extract_with_mask", NW + ":NetworkObservations.extract_with_mask"), ("sort", NW + ":NetworkObservations.sort"), ("new_numbering", NW + ":new_numbering"), ("remove_dead_end", NW + ":NetworkObservations.remove_dead_end"), ("connexions", NW + ":NetworkObservations.connexions")],
     ["k_network.build_unique_array", "k_network.new_numbering", "k_network.ptp", "k_network.generate_mask_from_ids", "k_network.mask_follow_obs", "k_generic.build_index", "k_netsel.network_mask", "k_netsel.network_sort"], lemmas=["k_lemmas.prefix", "k_lemmas.sums"],
     bounded=["bounded.nw_extract", "bounded.nw_order", "bounded.nw_events", "bounded.nw_connected", "bounded.nw_dead_ends"],
     bounded_note=["methods of NetworkObservations (object state) around the selection by mask and the sort, which are proved: other selections, events, connected segments, removal of dead ends"])

prop("C14", "Networks: groups are the chains of interactions, segments never branch",
     "Two observations are in the same group exactly when a chain of interactions within the time window links them, observations without interaction have no group, and the result depends only on the observations, window and contours given. "
     "In a group every observation is in one segment with at most one observation by date, its next observation is the one with the largest overlap at the first date with an overlap in the window, and links inside a segment go both ways. "
     "Comparing two atlases pairs a network or segment with an equal one, each used once, and leaves it unpaired only when none is left.",
     ["inputs", "histories"], "every list of observations by date, window, contour kind and minimal overlap; every pair of atlases",
     "tests group one small case; chains that join earlier groups, ties in dates and several networks built in one process are not exercised",
     [NW, TR], [("group_translator", NW + ":Network.group_translator"), ("apply_replace", NW + ":Network.apply_replace"), ("get_next_index", NW + ":Network.get_group_array"), ("split_network", TR + ":TrackEddiesObservations.split_network"), ("identify_in", NW + ":NetworkObservations.identify_in")],
     ["k_network.apply_replace", "k_network.get_next_index", "k_network.same_position"], lemmas=["k_lemmas.ranks"],
     bounded=["bounded.nw_groups", "bounded.nw_grouping", "bounded.nw_splitting", "bounded.nw_identify"],
     bounded_note=["building groups and segments (Python lists, Polygon library), method comparing atlases"])

prop("C15", "Missing dates are filled, and particles designate the right targets",
     "Observations are added for exactly the missing dates between consecutive observations of a track or segment, flagged virtual, interpolated in time, in the same track or segment, and linked to their neighbours; original observations keep their values and their links designate the same observations. "
     "For particles that start and end in outlines, each origin gets its two most frequent targets, the most frequent first, with their percents of the particles of the origin; origins without particle keep no target, and the table of a dataset is filled for the origins of the dates asked only.",
     ["inputs"], "every list of dates and tracks; every list of particle start and end attributions, any number of origins and targets",
     "tests check one list of missing indexes and sums over one advection; insertion shifts indexes and links in all the later observations",
     [GR, NW], [("get_missing_indices", GR + ":get_missing_indices"), ("insert_virtual", GR + ":GroupEddiesObservations.insert_virtual"), ("fix_next_previous_obs", NW + ":fix_next_previous_obs"), ("get_targets", GR + ":particle_candidate_step"), ("get_matrix", GR + ":GroupEddiesObservations.merge_particle_result")],
     ["k_groups.get_missing_indices", "k_groups.get_targets", "k_groups.get_matrix", "k_network.fix_next_previous_obs", "k_network.get_percentile_on_following_obs"], lemmas=["k_lemmas.monotone", "k_lemmas.prefix"],
     bounded=["bounded.gr_virtual", "bounded.gr_coherence", "bounded.gr_targets"],
     bounded_note=["insert_virtual and merge_particle_result (methods of the datasets)", "particle_candidate, particle_candidate_step and particle_candidate_atlas (creation of particles, advection by a series of grids, attribution to outlines)"])

GDP = "src/py_eddy_tracker/dataset/grid.py"

prop("C16", "Gradients and advection on grids use only known values around the position",
     "The derivative of a grid along an axis is, at every valid node, the largest centered stencil asked whose nodes are all valid, a one-sided difference next to a gap, and masked without valid neighbour; values masked or out of the grid are never used, and a grid that closes on itself has no border along longitude. "
     "Each particle advected moves at every step by the velocity interpolated in the cell that contains it, and between the dates around for a series of grids, whatever the other particles, and is lost exactly when a velocity needed is masked or out of the grid; "
     "dates, paths and filaments given back are those of these positions, forward and backward.",
     ["inputs"], "every grid (regional or closed on itself), mask, stencil width, particles, number of steps and dates",
     "tests advect particles on one small field without mask; borders, gaps, neighbouring cells cached from the previous particle and wrapping are not exercised",
     [GDP], [("compute_stencil", GDP + ":compute_stencil"), ("advect", GDP + ":advect"), ("get_uv_quad", GDP + ":get_uv_quad"), ("interp_uv", GDP + ":interp_uv")],
     ["k_grid.stencil_h", "k_grid.stencil_v", "k_grid.advect", "k_grid.advect_rk4", "k_grid.advect_t", "k_grid.advect_t_rk4"],
     assumptions=["grid steps are positive and constant, grids have at least 4 nodes along the derivative", "cos is an uninterpreted real function, not null at the latitudes of the grid", "no particle stands 100000 cells south of the grid", "an advection in a series starts at the date of a grid and releases positions at least at each date of the grids (between, the code extrapolates in time)"],
     bounded=["bounded.ad_steady", "bounded.ad_series"], bounded_note=["methods of the grids and of the series (generators, files): conversion of currents in degrees, choice of the two dates, weights, paths and filaments"])

OBS = "src/py_eddy_tracker/observations/observation.py"
TKG = "src/py_eddy_tracker/tracking.py"
AT = "src/py_eddy_tracker/featured_tracking/area_tracker.py"
EDA = "src/py_eddy_tracker/appli/eddies.py"
EF = "src/py_eddy_tracker/eddy_feature.py"

prop("C17", "Tracking: pairs are one to one, cheapest first, and tracks follow them",
     "Two dates are paired one to one, only allowed couples are kept (closer than the limit, or with enough overlap), and a couple left out shares an observation with a kept couple that costs no more. "
     "Tracks are the chains of pairs: an eddy missed for no more dates than the prolongation allows stays in its track, with virtual observations interpolated at the missing dates, else it starts another one. "
     "Every observation read is written once, in a long track, a short track or with the observations out of any track, also when tracking is continued from a saved state.",
     ["inputs", "histories"], "every pair of observation lists, cost matrix, and history of dates (gaps, births, deaths, two runs)",
     "tests track one small dataset; ties, conflicts between several observations, prolongations, dates without link and continued runs are not exercised",
     [OBS, TKG, AT, EDA], [("solve_simultaneous", OBS + ":EddiesObservations.solve_simultaneous"), ("tracking", OBS + ":EddiesObservations.tracking"), ("propagate", OBS + ":EddiesObservations.propagate"), ("mask_cmin", AT + ":mask_cmin"), ("Correspondances", TKG + ":Correspondances.track"), ("merge", TKG + ":Correspondances.merge"), ("track", EDA + ":track")],
     ["k_match.mask_cmin", "k_match.sum_row_column", "k_match.index", "k_match.shifted_ellipsoid", "k_dist.distance_grid"],
     bounded=["bounded.mt_solve", "bounded.mt_pairing", "bounded.mt_files"],
     assumptions=["the Polygon library returns the area of the intersection and of the union of two outlines"],
     bounded_note=["solve_simultaneous and solve_first (masked arrays), tracking, Correspondances and track (files, state)"])

prop("C18", "Observation containers: copies, selections, joins, bins and counts are exact",
     "A dataset selected, copied, joined with another or stripped of fields holds exactly the observations asked for, each with all its fields, in order, with the rotation sign and the period of its observations, and its sources are left as they are. "
     "Filters combined keep exactly the observations kept by each of them; grouping by bins or windows gives each observation to exactly the bins that contain it, in either of two datasets. "
     "Counts, sums and means by bin are those of the observations in the bin, and a position or an area keeps exactly the observations inside it.",
     ["inputs"], "every dataset (empty too, any class), selector (mask, slice, positions, function), bins (regular or not) and area",
     "tests count a few values on one file; empty datasets, slices without bounds, values out of the bins or on their bounds and unsorted values are not exercised",
     [OBS, G], [("index", OBS + ":EddiesObservations.index"), ("merge", OBS + ":EddiesObservations.merge"), ("insert_observations", OBS + ":EddiesObservations.insert_observations"), ("iter_on", OBS + ":EddiesObservations.iter_on"), ("merge_filters", OBS + ":EddiesObservations.merge_filters"), ("bins_stat", OBS + ":EddiesObservations.bins_stat"), ("numba_digitize", OBS + ":numba_digitize")],
     ["k_obs.numba_digitize", "k_obs.iter_mode_reduce", "k_generic.build_index", "k_generic.reverse_index", "k_window.window_index", "k_poly.insidepoly", "k_poly.poly_indexs"] + ["k_cont." + c for c in "insert_observations index_rows index_one index_slice index_slice_from index_slice_to extract_with_mask copy merge_same merge_fewer merge_other".split()], lemmas=["k_lemmas.sums"] + LM[1:] + WL,
     bounded=["bounded.ob_containers", "bounded.ob_joining", "bounded.ob_iterating", "bounded.ob_filtering", "bounded.ob_counting", "bounded.ob_area"],
     bounded_note=["the other methods of the containers, and the classes of the datasets (fields, numpy structured arrays) around the proved selections, copies and joins: add_fields, remove_fields, iter_on, align_on, merge_filters, hist, bins_stat, extract_with_area, mask_from_polygons"])

prop("C19", "Statistics on grids use exactly the nodes in each outline, the centers in each box",
     "The count of a node is the number of outlines that contain it, the mean, maximum, minimum and count of a grid in an outline are those of its valid nodes inside (nan without any), whatever the turns of longitude and also across the edges of the grid. "
     "The mean, percentile and count of a box are those of the observations whose center is in the box, lower bounds included, and boxes or nodes without any are masked. "
     "Values interpolated at positions come from the four nodes around (nan when one is masked or out of the grid), linearly between the two dates around for a collection, and the path between two positions goes from pixel to pixel from the one to the other.",
     ["inputs"], "every grid (regional or closed on itself), mask, list of outlines and positions, subset of observations",
     "tests count one file on one grid; edges, masked nodes, empty outlines, boxes next to each other and turns are not exercised",
     [OBS, GDP, G, PO], [("grid_count", OBS + ":EddiesObservations.grid_count"), ("grid_count_", OBS + ":grid_count_"), ("grid_stat", OBS + ":grid_stat"), ("grid_box_stat", OBS + ":grid_box_stat"), ("bbox_indice_regular", G + ":bbox_indice_regular"), ("get_pixel_in_regular", PO + ":get_pixel_in_regular"), ("compute_pixel_path", GDP + ":compute_pixel_path"), ("interp", GDP + ":GridCollection.interp")],
     ["k_obs.grid_count_", "k_obs.has_masked_value", "k_obs.has_value", "k_poly.get_pixel_in_regular", "k_poly.winding_grid", "k_poly.create_vertice", "k_poly.reduce_size", "k_interp.interp2d_bilinear", "k_file.box_closed", "k_file.box_regional"], lemmas=WL + LM,
     bounded=["bounded.gd_pixels", "bounded.gd_boxes", "bounded.gd_indexes", "bounded.gd_positions"],
     assumptions=["coordinates are not nan; contours are narrower than 180 degrees; observations counted on a regional grid have their center in its range of longitudes"],
     bounded_note=["grid_count_pixel_in, grid_stat, grid_box_stat, compute_pixel_path and the methods that call them"])

prop("C20", "Observations stored in files are read back as they were",
     "A dataset written in a file, netCDF or zarr, is loaded with the same class, fields, number of observations in the same order, and rotation sign; each value is the one stored, exactly for integers and float fields, within half of a step for fields packed with a scale, and values stored again do not move. "
     "Loading a part (a range of observations, some variables) gives exactly that part of the file, raw values are the integers stored and written again they give the same file. "
     "Writing leaves the observations as they are, and the file is named after the rotation of the eddies.",
     ["inputs"], "every dataset (empty too) of every class, with any extra field and array, values in the range of the stored types",
     "tests load two files and never compare what is written with what is loaded",
     [OBS, TR], [("load_from_netcdf", OBS + ":EddiesObservations.load_from_netcdf"), ("load_from_zarr", OBS + ":EddiesObservations.load_from_zarr"), ("create_variable", OBS + ":EddiesObservations.create_variable"), ("create_variable_zarr", OBS + ":EddiesObservations.create_variable_zarr"), ("write_file", OBS + ":EddiesObservations.write_file")],
     ["k_store.copy_all", "k_store.copy_part", "k_store.copy_raw"], bounded=["bounded.st_round_trip"], level="exploration",
     note="The buffered copy of values from a zarr file (units, packing, any slice, any size of buffer) is proved for all inputs; the round trip through netCDF4, zarr and numcodecs, compiled libraries out of reach of the verifier, is a bounded check on generated datasets.",
     bounded_note=["the whole round trip: netCDF4, zarr and numcodecs are compiled libraries out of reach of the verifier"])

prop("C21", "Eddies detected are bounded by isolines of the field, around one extremum",
     "Each eddy detected is bounded by a closed isoline of the field, compact enough, with all the nodes inside known, on one side of it and in no other eddy, in the limits of size, with no more high extrema than allowed and with the height of its highest one from the isoline for amplitude, at least the threshold asked for. "
     "Its inner and fastest isolines are inside the outer one, in order; centers, radii, areas, shape errors, speeds and heights stored are those of these isolines, in the units of the files, whatever the units of the grid. "
     "Separated eddies are all found, with their sign, place and amplitude, wherever they are (edges of a closed grid included), and the same ones when the field is turned around the globe or changes sign.",
     ["inputs"], "every field of heights (regional or closed grid, masked nodes, units), levels, limits of shape, size and amplitude",
     "one test counts the eddies detected in one file; edges, masked nodes, plateaus, units and nested isolines are not exercised",
     [GDP, EF], [("eddy_identification", GDP + ":GridDataset.eddy_identification"), ("get_uavg", GDP + ":GridDataset.get_uavg"), ("detect_local_minima_", EF + ":detect_local_minima_"), ("index_from_nearest_path_with_pt_in_bbox_", EF + ":index_from_nearest_path_with_pt_in_bbox_"), ("Amplitude", EF + ":Amplitude"), ("Contours", EF + ":Contours"), ("has_value", GDP + ":has_value")],
     ["k_detect.nearest_path", "k_detect.detect_extrema", "k_obs.has_masked_value", "k_obs.has_value", "k_poly.get_pixel_in_regular", "k_poly.winding_grid", "k_file.box_closed", "k_file.box_regional"], lemmas=WL,
     bounded=["bounded.dt_extrema", "bounded.dt_identify", "bounded.dt_separated"],
     assumptions=["heights are below 2e10 and the tables of isolines are consistent (built by Contours)", "matplotlib computes the isolines of a field"],
     bounded_note=["Contours (matplotlib paths), Amplitude, get_uavg and eddy_identification (masked arrays, objects), grouping of extrema which touch each other"])

prop("C22", "Grid filters are weighted means of known nodes; currents balance the heights",
     "A filtered value is the mean of the known nodes closer than the cut-off wavelength, weighted by their distance, also across the edge of a closed grid; hence a uniform field is left as it is and both hemispheres are filtered alike; high, low and band filters are the differences of these means. "
     "A wavelength shorter than two steps of the grid is refused, and nodes that are not known (unless asked for), or further poleward than asked for, are masked. "
     "A derivative is the difference of the known nodes on each side over their distance, and the currents given at nodes with a known neighbour are in geostrophic balance with the slope of the heights.",
     ["inputs"], "every field (regional or closed grid, masked nodes, polar rows), wavelength, order and kernel",
     "tests filter a few nodes of one file; polar rows, masked rows, closed grids, orders above one and wavelengths that are whole numbers of steps are not exercised",
     [GDP], [("convolve_filter_with_dynamic_kernel", GDP + ":RegularGridDataset.convolve_filter_with_dynamic_kernel"), ("estimate_kernel_shape", GDP + ":RegularGridDataset.estimate_kernel_shape"), ("finalize_kernel", GDP + ":RegularGridDataset.finalize_kernel"), ("compute_finite_difference", GDP + ":RegularGridDataset.compute_finite_difference"), ("add_uv", GDP + ":RegularGridDataset.add_uv"), ("compute_stencil", GDP + ":compute_stencil")],
     ["k_filter.get_step_in_km", "k_filter.estimate_kernel_shape", "k_filter.finite_difference_v", "k_filter.finite_difference_h", "k_filter.finite_difference_wrap", "k_grid.stencil_h", "k_grid.stencil_v"],
     bounded=["bounded.ft_filters", "bounded.ft_currents"],
     assumptions=["the kernel is not wider than the whole circle of a closed grid (the filter raises)", "cv2.filter2D computes a correlation"],
     bounded_note=["the kernels, convolve_filter_with_dynamic_kernel and the filters that call it (masked arrays, OpenCV), add_uv, add_uv_lagerloef and regrid"])

prop("C23", "Grids read from files hold the values of the file at the right positions",
     "A grid read from a file gives at each node the value stored for its longitude, latitude, and index asked in the other dimensions when it is first read, whatever the order of the dimensions; nodes are unknown exactly where the file has no value (or NaN, on request). "
     "Coordinates are the centers of cells bounded halfway, or the low bounds of cells, as asked; grids with two-dimensional coordinates give the same eddies. "
     "A grid copied, or written and read back, is the same one; a grid interpolated from another has its value at each node, and a series of files gives at each date the grid of this date.",
     ["inputs", "histories"], "every file (dimensions in any order, other dimensions, packed or missing values, subsets), centered or not, written with one index in the other dimensions, placed first",
     "tests read a few demonstration files with one layout",
     [GDP], [("setup_coordinates", GDP + ":GridDataset.setup_coordinates"), ("grid", GDP + ":GridDataset.grid"), ("write", GDP + ":GridDataset.write"), ("copy", GDP + ":GridDataset.copy"), ("load", GDP + ":UnRegularGridDataset.load"), ("regrid", GDP + ":RegularGridDataset.regrid"), ("from_netcdf_list", GDP + ":GridCollection.from_netcdf_list")],
     ["k_file.c_to_bounds", "k_file.setup_centered", "k_file.setup_unknown", "k_file.setup_bounds", "k_file.regular_setup"],
     bounded=["bounded.fl_read", "bounded.fl_written", "bounded.fl_series", "bounded.fl_curvilinear", "bounded.fl_curvilinear_eddies"],
     bounded_note=["reading and writing files (netCDF4 library), copy, regrid, series of files, grids with two-dimensional coordinates (k-d tree)"])
