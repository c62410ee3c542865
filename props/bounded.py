"""Bounded stand-ins (never counted as proved)"""
from vc.bounded import Bounded

visvalingam = Bounded("b_poly", "visvalingam", "poly:visvalingam", "outlines of 4 to 31 points without ties, sizes 4 to 22")
convex_hull = Bounded("b_poly", "convex_hull", "poly:get_convex_hull", "star-shaped counterclockwise outlines of 4 to 15 points")
fit_circle = Bounded("b_poly", "fit_circle", "poly:fit_circle", "4 to 30 vertices, exact and noisy circles (linear least squares is done by LAPACK)")

tr_tables = Bounded("b_track", "tables", "observations.tracking:TrackEddiesObservations", "1 to 5 tracks of 1 to 5 observations, ids in 0..7 with gaps")
tr_selections = Bounded("b_track", "selections", "observations.tracking:TrackEddiesObservations.extract_with_mask", "1 to 5 tracks of 1 to 5 observations, every option of the selections")
tr_longitudes = Bounded("b_track", "longitudes", "observations.tracking:TrackEddiesObservations.normalize_longitude", "1 to 5 tracks of 1 to 5 observations with contours of 6 points")
tr_smoothing = Bounded("b_track", "smoothing", "observations.tracking:TrackEddiesObservations.position_filter", "1 to 5 tracks of 1 to 5 observations")

_net = "observations.network:NetworkObservations"
nw_extract = Bounded("b_network", "extract", _net + ".extract_with_mask", "1 to 3 networks of 1 to 4 segments of 1 to 4 observations, ids with gaps, trash or not")
nw_order = Bounded("b_network", "order", _net + ".sort", "1 to 3 networks of 1 to 4 segments of 1 to 4 observations, any order")
nw_events = Bounded("b_network", "events", _net + ".merging_event", "1 to 3 networks of 1 to 4 segments of 1 to 4 observations")
nw_connected = Bounded("b_network", "connected", _net + ".dissociate_network", "1 to 3 networks of 1 to 4 segments of 1 to 4 observations")
nw_dead_ends = Bounded("b_network", "dead_ends", _net + ".remove_dead_end", "1 to 3 networks of 1 to 4 segments, 0 to 2 recursions")
nw_groups = Bounded("b_network", "groups", "observations.network:Network.get_group_array", "1 to 4 days of 1 to 4 observations")
nw_grouping = Bounded("b_network", "grouping", "observations.network:Network.group_observations", "1 to 4 days of 1 to 4 squares, two windows or contours in the same process")
nw_splitting = Bounded("b_network", "splitting", "observations.tracking:TrackEddiesObservations.split_network", "3 to 10 observations in 1 to 3 groups, square outlines")
nw_identify = Bounded("b_network", "identify", _net + ".identify_in", "two atlases of 1 to 3 networks")
gr_virtual = Bounded("b_network", "virtual", "observations.groups:GroupEddiesObservations.insert_virtual", "1 to 5 tracks, 1 to 3 networks, gaps of 1 or 2 dates")
gr_coherence = Bounded("b_network", "coherence", "observations.groups:GroupEddiesObservations.merge_particle_result", "2 to 9 observations")

_obs = "observations.observation:EddiesObservations"
mt_solve = Bounded("b_match", "solve", _obs + ".solve_simultaneous", "cost matrices up to 6 x 6, with ties or not")
mt_pairing = Bounded("b_match", "pairing", _obs + ".tracking", "two days of 1 to 6 observations, any turns of longitude", n_quick=600)
mt_files = Bounded("b_match", "track_files", "appli.eddies:track", "3 to 10 days of 1 to 4 steady eddies, far apart, seen or not, 0 to 3 virtual observations", n_quick=150, n_thorough=1500)

ob_containers = Bounded("b_obs", "containers", _obs + ".index", "0 to 9 observations, any selection")
ob_joining = Bounded("b_obs", "joining", _obs + ".insert_observations", "two datasets of 0 to 9 observations")
ob_iterating = Bounded("b_obs", "iterating", _obs + ".iter_on", "1 to 9 observations, regular or irregular bins, windows")
ob_filtering = Bounded("b_obs", "filtering", _obs + ".merge_filters", "1 to 5 filters (masks, slices, positions, functions) on 1 to 9 observations")
ob_counting = Bounded("b_obs", "counting", _obs + ".bins_stat", "1 to 9 observations, regular or irregular bins")
ob_area = Bounded("b_obs", "area", _obs + ".extract_with_area", "1 to 9 observations, boxes and squares")

gd_pixels = Bounded("b_grid", "pixels", _obs + ".grid_count", "1 to 5 contours of 9 points, global or regional grids up to 72 x 12 with masked nodes", n_quick=400, n_thorough=4000)
gd_boxes = Bounded("b_grid", "boxes", _obs + ".grid_box_stat", "1 to 12 observations, global or regional bins")
gd_indexes = Bounded("b_grid", "indexes", "dataset.grid:RegularGridDataset.get_pixels_in", "one contour and up to 5 paths, global or regional grids up to 72 x 12")

st_round_trip = Bounded("b_store", "round_trip", _obs + ".load_file", "0 to 9 observations of any class, with any extra fields and arrays, netCDF or zarr", n_quick=250, n_thorough=3000)
gd_positions = Bounded("b_grid", "positions", "dataset.grid:GridCollection.interp", "1 to 8 positions, global or regional grids up to 72 x 12 with masked nodes, 2 to 4 dates")

dt_extrema = Bounded("b_detect", "extrema", "eddy_feature:detect_local_minima_", "grids up to 9 x 9 of 2 to 6 heights, any mask, 0 to 4 extrema allowed")
dt_identify = Bounded("b_detect", "identify", "dataset.grid:GridDataset.eddy_identification", "random fields on regional (up to 30 x 24) or closed (up to 144 x 24) grids, with masked nodes, any unit", n_quick=120, n_thorough=1500)
dt_separated = Bounded("b_detect", "separated", "dataset.grid:GridDataset.eddy_identification", "1 to 6 separated gaussian eddies on regional (up to 40 x 32) or closed (up to 144 x 32) grids", n_quick=120, n_thorough=1500)
ft_filters = Bounded("b_filter", "filters", "dataset.grid:RegularGridDataset.convolve_filter_with_dynamic_kernel", "random fields on regional (up to 26 x 14) or closed (up to 72 x 14) grids with masked nodes, orders 1 and 2, wavelengths of 2 to 5 steps", n_quick=200, n_thorough=3000)
ft_currents = Bounded("b_filter", "currents", "dataset.grid:RegularGridDataset.add_uv", "random fields, planes and waves on regional (up to 26 x 14) or closed (up to 72 x 14) grids with masked nodes", n_quick=400, n_thorough=4000)
fl_read = Bounded("b_file", "read", "dataset.grid:GridDataset.grid", "files of up to 16 x 7 nodes, 1 to 3 dates, 1 to 2 depths, dimensions in any order, packed or not, with missing values", n_quick=300, n_thorough=4000)
fl_written = Bounded("b_file", "written", "dataset.grid:GridDataset.write", "files of up to 16 x 7 nodes, dimensions in any order", n_quick=300, n_thorough=4000)
fl_series = Bounded("b_file", "series", "dataset.grid:GridCollection.from_netcdf_list", "2 to 4 dates", n_quick=200, n_thorough=2000)
fl_curvilinear = Bounded("b_file", "curvilinear", "dataset.grid:UnRegularGridDataset.nearest_grd_indice", "up to 7 x 7 nodes", n_quick=200, n_thorough=2000)
fl_curvilinear_eddies = Bounded("b_file", "curvilinear_eddies", "dataset.grid:GridDataset.eddy_identification", "one gaussian eddy on up to 40 x 34 nodes", n_quick=25, n_thorough=300)
ad_steady = Bounded("b_adv", "steady", "dataset.grid:RegularGridDataset.advect", "grids of 3 to 8 by 3 to 7 nodes, 1 to 6 particles, 1 to 4 calls of 1 to 5 steps")
ad_series = Bounded("b_adv", "series", "dataset.grid:GridCollection.advect", "3 or 4 dates, grids of 3 to 8 by 3 to 7 nodes, 1 to 6 particles, 1 to 6 calls", n_quick=300, n_thorough=2500)
gr_targets = Bounded("b_adv", "targets", "observations.groups:GroupEddiesObservations.particle_candidate_atlas", "3 to 5 dates, at most 3 outlines by date, uniform currents", n_quick=300, n_thorough=2500)
