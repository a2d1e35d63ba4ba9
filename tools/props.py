"""The property catalogue: one entry per property (see gen.py)."""
POST = "discorpy/post/postprocessing.py"
PROC = "discorpy/proc/processing.py"
UTIL = "discorpy/util/utility.py"
PREP = "discorpy/prep/preprocessing.py"
LINE = "discorpy/prep/linepattern.py"
LOSA = "discorpy/losa/loadersaver.py"


def P(id, title, statement, text, why, files, mech, over=("inputs",),
      bounds=""):
    return dict(id=id, title=title, statement=statement, over=list(over),
                text=text, why=why, files=files, mech=mech, bounds=bounds)


PROPS = [
    P("C01", "Corrected images sample the distorted image where the model says",
      "Every pixel of an image corrected with a backward radial model holds "
      "the input interpolated (with the requested order and boundary mode) at "
      "the centre plus the pixel's offset scaled by the polynomial of its "
      "radius, clamped to the image. This holds for grey and colour images, "
      "for every size, centre and number of coefficients, for each of the "
      "correction functions, and repeated calls do not influence each other.",
      "all image sizes, centres (inside or outside), coefficient lists, "
      "orders/modes and pixels", "tests correct one blurred random image and "
      "look at a coarse error; no other size, centre, order or channel count "
      "is tried", [POST, UTIL], ["unwarp_image_backward", "mapping",
                                 "unwarp_color_image_backward", "mapping_cv2",
                                 "unwarp_image_backward_cv2"],
      over=("inputs", "histories", "configurations")),
    P("C02", "Padding only enlarges the canvas of a corrected image",
      "Correcting with padding gives exactly the correction of the padded "
      "image about the shifted centre: the canvas grows by the requested "
      "top/bottom/left/right amounts and nothing else changes. Automatic "
      "padding grows it by the amount the corrected corners stick out; a "
      "malformed padding is refused with ValueError.",
      "all sizes, paddings (none, int, four values, automatic), pad modes, "
      "models and pixels", "tests try a single padding value and look at the "
      "shape only", [UTIL], ["_calc_pad", "unwarp_color_image_backward",
                             "unwarp_image_backward_cv2"],
      over=("inputs", "configurations")),
    P("C03", "Corrected slices and chunks are rows of the corrected projections",
      "Correcting one row (or a range of rows) of a 3D dataset gives exactly "
      "those rows of each projection corrected as a whole with linear "
      "interpolation, first and last row included; -1 as the last row means "
      "the end. Indices outside the data and non-3D input are refused with "
      "ValueError.",
      "all volume sizes, row ranges, centres and coefficients", "tests use "
      "one small volume and a nearly trivial model", [POST],
      ["unwarp_slice_backward", "unwarp_chunk_slices_backward"]),
    P("C04", "Points and lines are mapped by the radial model about the centre",
      "Mapping a point or each point of a list of lines moves it along the "
      "ray from the centre by the polynomial of its radius, for real and "
      "integer coordinates alike. The single-point function and the line "
      "function agree, the output order is the one asked for, and the inputs "
      "are left alone.",
      "all points, centres, coefficient lists, numbers of lines and points",
      "tests map one symmetric grid with one model", [POST, UTIL],
      ["unwarp_line_forward", "find_point_to_point"]),
    P("C05", "Backward unwarping of lines inverts the backward model",
      "Each point returned by backward unwarping of lines is the point which "
      "the backward model sends to the given one (a point at the centre "
      "stays there).",
      "all points, centres and well-behaved models", "tests check the mean "
      "error on one grid", [POST], ["unwarp_line_backward", "_func_diff"]),
    P("C06", "Forward image unwarping puts pixels at their mapped places",
      "In a forward-corrected image every pixel is either empty (zero) and no "
      "input pixel maps to it, or holds the value of an input pixel whose "
      "mapped, clamped and rounded position it is; shape and type are kept.",
      "all images within the bounds, centres and coefficients",
      "the test looks at one image", [POST], ["unwarp_image_forward"]),
    P("C07", "Residuals are distances to the best-fit line of each line",
      "The straightness report has one row per dot: its distance to the "
      "centre and its perpendicular distance to the least-squares line "
      "through its own line, sorted by the former; dots on straight lines "
      "have zero residual. The distortion test answers yes exactly when more "
      "than 15% of the residuals exceed one pixel.",
      "all dot positions, line counts and centres", "tests use one synthetic "
      "pattern and a threshold", [POST],
      ["calc_residual_hor", "calc_residual_ver", "check_distortion"]),
    P("C08", "Perspective coefficients send source points to their targets",
      "The eight coefficients computed from point pairs map every source "
      "point to its target (forward) or every target to its source "
      "(backward, the default) exactly for four pairs, and in the "
      "least-squares sense for more.",
      "all point pairs in general position, both directions", "tests use one "
      "quadrilateral", [PROC], ["calc_perspective_coefficients"]),
    P("C09", "Perspective correction is applied alike to lines and images",
      "Corrected points are the projective transform of the points given in "
      "(y, x) order; each pixel of a corrected image is the input "
      "interpolated at the transform of its position, clamped to the image, "
      "with the requested order and mode (or at a supplied map). Any number "
      "of coefficients other than eight is refused with ValueError.",
      "all coefficients, points, image sizes, orders and modes", "tests "
      "correct one image and one set of lines", [POST],
      ["correct_perspective_line", "correct_perspective_image"]),
    P("C10", "Regenerated grid points are intersections of the fitted lines",
      "Regenerating a grid returns, for every pair of a horizontal and a "
      "vertical line, the intersection of the straight lines (or parabolas) "
      "fitted to their dots; both returned lists hold the same points and "
      "the centre option does not move them. With perspective=True the "
      "parabolas first get the common direction of the grid and the larger "
      "of the two line spacings.",
      "all dots, slopes, curvatures and line counts", "tests use one grid",
      [PROC], ["regenerate_grid_points_linear",
               "regenerate_grid_points_parabola"]),
    P("C11", "The undistorted version of a perspective grid is regular",
      "The target grid of perspective lines consists of parallel, equally "
      "spaced rows and columns at right angles, anchored at the middle "
      "lines, with the spacing selected by the options. A grid which is "
      "already regular (rotated or not) is its own target, and source and "
      "target points are returned in the same order.",
      "all line sets within the bounds, every scale option", "tests compare "
      "one distorted grid", [PROC],
      ["generate_undistorted_perspective_lines",
       "generate_source_target_perspective_points"],
      over=("inputs", "configurations")),
    P("C12", "Four perspective points are turned into a rectangle",
      "Given four points in any order, the source points come back as "
      "top-left, top-right, bottom-left, bottom-right in (y, x) order and "
      "the targets form a rectangle whose sides have the requested size "
      "(a square if asked for). A rectangle is its own target; other numbers "
      "of points are refused with ValueError.",
      "all quadrilaterals within the bounds, input orders and options",
      "tests use one quadrilateral", [PROC],
      ["generate_4_source_target_perspective_points"],
      over=("inputs", "configurations")),
    P("C13", "Radial coefficients are the best fit of the dot lines",
      "The coefficients of the forward model minimise the sum over all dots "
      "of (F(r_d) - c_u*/(a x^2 + c))^2, those of the backward model the "
      "same with the inverse ratio at r_d/F, where a and c come from the "
      "parabola fitted to the dot's line about the centre and c_u* from "
      "equally spaced lines through the line nearest to the centre (spacing: "
      "mean of up to three neighbours on each side, or the least-squares one "
      "when optimising). The combined function's backward model is fitted "
      "to the inverse of its forward model. There are max(1, num_fact) "
      "coefficients. A regular straight grid, wherever the centre lies, "
      "gives the identity model; a missing grid line gives a warning.",
      "all dot lines within the bounds, centres and numbers of coefficients",
      "tests compare one synthetic grid with loose tolerances", [PROC],
      ["calc_coef_forward", "calc_coef_backward",
       "calc_coef_backward_from_forward"],
      over=("inputs", "configurations")),
    P("C14", "Model conversion gives the inverse radial model",
      "Converting a model between forward and backward mapping returns as "
      "many coefficients, fitted so that at each reference point the new "
      "factor at the mapped radius is the inverse of the given factor; with "
      "as many points as coefficients the round trip is exact there, a pure "
      "scale becomes its inverse, and generated reference points cover an "
      "image. Fewer points than coefficients are refused with ValueError.",
      "all coefficients and reference points within the bounds",
      "tests convert one model", [PROC],
      ["transform_coef_backward_and_forward"]),
    P("C15", "The centre of distortion is where the curvature vanishes",
      "The coarse estimate is the intersection of the mean lines on both "
      "sides of the change of curvature; the regression estimate is the "
      "zero of the curvature-versus-intercept regression, repeated the "
      "requested number of times; the fine search ends within a step of the "
      "centre of a radially distorted grid inside its search range. A grid "
      "symmetric about a centre has that centre exactly, and moving the "
      "grid moves the centre along.",
      "all line sets within the bounds and all positions of the grid",
      "tests use one simulated grid", [PROC],
      ["find_cod_coarse", "find_cod_bailey", "find_cod_fine"],
      over=("inputs", "configurations")),
    P("C16", "Dots are grouped into exactly the rows they belong to",
      "Grouping dots into horizontal or vertical lines returns, for dots "
      "scattered about separated rows of the given slope, each row whole, "
      "once, with its dots ordered along the line and the rows ordered "
      "across, in whatever order the dots come in; stray dots and rows "
      "shorter than the accepted share of the longest are left out. In "
      "general a dot joins a line when it is within the tolerance of the "
      "line through the line's last dot and not further along than the "
      "allowed number of missed dots. Dots are never invented, moved or "
      "used twice; no dots at all is refused with ValueError.",
      "all dot positions within the scatter, all slopes, orders and "
      "parameters within the bounds", "tests group one simulated grid",
      [PREP], ["group_dots_hor_lines", "group_dots_ver_lines",
               "_check_dot_on_line"], over=("inputs", "configurations")),
    P("C17", "Strongly curved rows of dots are grouped whole",
      "Grouping by polynomial fitting returns every row of dots that lie on "
      "parallel parabolas (at any slope, with scatter across below the "
      "tolerance and isolated dots missing) whole, once, ordered along and "
      "across, wherever the row extends beyond the middle of the image; "
      "stray dots are left out, positions are returned unrotated, inputs "
      "stay as they were. No dots at all is refused with ValueError.",
      "all scatters within the tolerance for the rows, slopes, orders and "
      "parameters within the bounds", "tests group one simulated grid",
      [PREP], ["group_dots_hor_lines_based_polyfit",
               "group_dots_ver_lines_based_polyfit"],
      over=("inputs", "configurations")),
    P("C18", "Only dots far from their line's parabola are removed",
      "Removing residual dots drops exactly the dots whose distance, "
      "measured across the line, to the least-squares parabola of their "
      "line is not below the given residual; all others come back with "
      "their coordinates, in order, line by line; lines left without dots "
      "disappear; when nothing is left a ValueError is raised.",
      "all dot positions, slopes and residuals within the bounds",
      "tests filter one simulated grid", [PREP],
      ["remove_residual_dots_hor", "remove_residual_dots_ver"]),
    P("C19", "The parabola mask keeps what lies between its four parabolas",
      "The mask is 1 strictly inside the four parabolas given by curviness "
      "and margins (one value or two per direction) and 0 elsewhere, for "
      "any image size; a rotated mask is its rounded rotation; margins that "
      "do not fit are refused with ValueError. Of a set of points exactly "
      "those whose pixel is inside the image and the mask are kept, as they "
      "are and in order; points outside the image are removed too.",
      "all sizes, margins, curviness values, pixels and points within the "
      "bounds", "tests compare the sum of one mask and one set of points",
      [PREP], ["make_parabola_mask", "remove_points_using_parabola_mask"]),
    P("C20", "Rotating, shifting and subtracting points is exact",
      "Rotating points turns each (y, x) about the origin by the angle in "
      "the chosen unit, and turning back restores them; shifting lines to "
      "another centre adds the centre to each dot; removing a subset "
      "removes exactly the points equal to a selected one and keeps the "
      "others in order. Integer coordinates are not truncated, lists and "
      "arrays work alike, inputs stay as they were.",
      "all points, angles and centres within the bounds",
      "tests use one angle and one set of points", [PREP, PROC],
      ["rotate_points", "remove_subset_points", "update_center"]),
    P("C21", "A tilted profile holds the intensities along the tilted line",
      "The profile has one sample per column (row); the samples lie evenly "
      "spaced on the line from the given index at the given angle, kept "
      "inside the image; the intensities are the image interpolated there; "
      "this holds for images of any size. A line that leaves the image by a "
      "pixel or more, an angle of 90 degrees and an input that is not 2D "
      "are refused with ValueError, lines inside are accepted.",
      "all image sizes, angles, indices and samples within the bounds",
      "tests take a horizontal and a vertical profile of one small image",
      [LINE], ["get_tilted_profile", "_calc_index_range"]),
    P("C22", "Extrema and slopes of profiles are found where they are",
      "A refined extremum is the vertex of the least-squares parabola when "
      "that is of the wanted kind and inside the data, otherwise the "
      "extreme sample. The local extrema are the samples that are extreme "
      "within the radius (at most a quarter of the data) and stand out by "
      "more than the sensitivity against the mean of as many opposite "
      "values; background normalisation does not depend on the intensity "
      "scale. select_good_peaks keeps the peaks whose Gaussian fit succeeds, "
      "lies within half the radius, misses at most 20 percent of the samples "
      "by the tolerance or more and, when asked for, has an offset below "
      "it. Window slopes are the absolute slopes "
      "of the least-squares lines of the edge-padded odd windows of three "
      "samples or more, over their "
      "mean when normalised, for integer data too; fewer than three samples "
      "are refused with ValueError. Data stay as they were.",
      "all sample values and sensitivities within the bounds",
      "tests look at a sine curve", [LINE],
      ["locate_subpixel_point", "get_local_extrema_points",
       "sliding_window_slope", "select_good_peaks"],
      over=("inputs", "configurations")),
    P("C23", "Points on pattern lines are reported where they were sampled",
      "Cross points are found along lines of the given slope, starting at "
      "the first line inside the image plus the offset and spaced by ratio "
      "times the distance; each extremum of a profile gives one point at "
      "exactly the image position where that profile has it, in order. The "
      "profile is taken from the inverted, normalised and smoothed image as "
      "requested, and neither normalisation nor smoothing is applied twice; "
      "in chessboard mode extrema of its window slopes are used.",
      "all images, extrema positions and slopes within the bounds",
      "tests count points of one simulated pattern", [LINE],
      ["get_cross_points_hor_lines", "get_cross_points_ver_lines"],
      over=("inputs", "configurations")),
    P("C24", "Saved calibration metadata and point lists load back unchanged",
      "What save_metadata_txt, save_metadata_json and save_python_list write "
      "is returned by the matching loader exactly: centre, number and values "
      "of the coefficients, in order, after any sequence of saves with or "
      "without overwriting. The path returned is the file written. "
      "Hand-written files in the documented format load too, and an absent "
      "file raises ValueError or OSError.",
      "all values, numbers of coefficients and sequences of saves within the "
      "bounds", "tests save and load one set of values", [LOSA],
      ["save_metadata_txt", "load_metadata_txt", "save_metadata_json",
       "load_metadata_json", "save_python_list", "load_python_list"],
      over=("inputs", "histories")),
    P("C25", "Saving never destroys files it was not told to overwrite",
      "With overwrite=False every saver (images, plots, HDF files and "
      "streams, metadata, lists) leaves every existing file as it is and "
      "writes exactly one new file, the one named if that name is free and "
      "else one with the same stem, an added number and the same suffix in "
      "the same folder; with overwrite=True exactly the named file (with its "
      "suffix corrected where documented) is written. The returned path is "
      "the file written; missing folders are created.",
      "all combinations of existing files and folders within the bounds",
      "tests save at most twice into an empty folder", [LOSA],
      ["_create_file_name", "_create_folder", "save_image", "save_hdf_file",
       "open_hdf_stream", "save_plot_image", "save_plot_points",
       "save_residual_plot", "save_metadata_txt", "save_metadata_json",
       "save_python_list"], over=("histories", "inputs")),
    P("C26", "HDF files: the slices asked for and the datasets there are",
      "load_hdf_file returns exactly the images selected by an integer "
      "(negative: from the end), a (start, stop[, step]) range or an "
      "increasing list of positions along the chosen "
      "axis: a single one as a 2D array, several as a 3D array in the layout "
      "of the file; empty and out-of-range selections, absent keys and data "
      "that are neither 2D nor 3D are reported by an exception. Without a "
      "key it reads a dataset called data inside a group or raises "
      "ValueError. find_hdf_key and get_hdf_information report every "
      "(matching) dataset with shape and type. Data written by save_hdf_file "
      "or a stream, and its metadata, keep their type in the file and are "
      "read back unchanged.",
      "all contents, selections and sets of datasets within the bounds",
      "tests read a few slices of one cube and look at shapes only", [LOSA],
      ["load_hdf_file", "load_hdf_object", "find_hdf_key",
       "get_hdf_information", "open_hdf_stream", "save_hdf_file"],
      over=("inputs", "configurations")),
    P("C27", "Images are saved and loaded without changing the picture",
      "load_image returns the stored pixels, or the mean over the channels of "
      "a multichannel picture of any size. save_image keeps the values of 2D "
      "data in tif files and of 8-bit data in any lossless format, stretches "
      "other data linearly from 0 (minimum) to 255 (maximum) within one grey "
      "level for every numeric type, and writes the channel mean of a "
      "multichannel image (channels first or last) to tif. The array given is not modified. "
      "Unreadable files raise ValueError.",
      "all pixel values and data types within the bounds",
      "tests look at shapes and at the existence of files", [LOSA],
      ["load_image", "save_image"], over=("inputs",)),
    P("C28", "Plots show the points where they are; find_file lists matches",
      "save_plot_image and save_plot_points draw every given point once, at "
      "abscissa x and ordinate height - y inside axis limits (0, width, 0, "
      "height), in a picture of width times height pixels; save_residual_plot draws every (radius, residual) pair. "
      "find_file returns all files matching the pattern in alphabetical "
      "order and raises FileNotFoundError when there is none.",
      "all coordinates and sets of files within the bounds",
      "tests check that a file exists", [LOSA],
      ["save_plot_image", "save_plot_points", "save_residual_plot",
       "find_file"], over=("inputs",)),
    P("C29", "Dot selection keeps exactly the dots that qualify, whole",
      "select_dots_based_size keeps the dots whose area is within "
      "(1 -/+ ratio) times the given size; select_dots_based_ratio those of "
      "which major axis / minor axis - 1 is below the ratio; "
      "select_dots_based_distance those with one of their nearest neighbours "
      "at about a multiple of the given distance. Kept dots are unchanged "
      "pixel by pixel, removed dots disappear completely (also when their "
      "bounding boxes overlap), nothing is added, and the input is not "
      "modified. check_num_dots reports images with fewer than 25 dots. "
      "calc_size_distance returns the median dot size and the median "
      "distance to the nearest neighbour of the dots inside the region of "
      "interest.",
      "all thresholds and combinations of dot shapes within the bounds",
      "tests check one regular pattern", [PREP],
      ["select_dots_based_size", "select_dots_based_ratio",
       "select_dots_based_distance", "check_num_dots", "calc_size_distance",
       "_check_dot_size", "_check_axes_ratio"], over=("inputs",)),
    P("C30", "From a grey image to the centroids of its dots",
      "The region of interest is the centred part of the image of the given "
      "ratio. normalization divides out the median background, keeping its "
      "mean, also where the background is zero. binarization gives a mask "
      "with dots as 1 on 0 for bright and for dark dots, without dots that "
      "touch the border, without specks, with holes filled; without a "
      "threshold it takes Otsu's for the region of interest. "
      "get_points_dot_pattern returns the centroid of each dot and raises "
      "ValueError for an image that is not binary; grouping an image gives "
      "the same lines as grouping its centroids. calculate_threshold takes "
      "the threshold from a straight line through the sorted grey values. "
      "Inputs are not modified.",
      "all grey values, thresholds and ratios within the bounds",
      "tests binarise one synthetic pattern", [PREP],
      ["_select_roi", "normalization", "binarization",
       "get_points_dot_pattern", "group_dots_hor_lines",
       "group_dots_ver_lines", "calculate_threshold", "_invert_dots_contrast"],
      over=("inputs",)),
    P("C31", "Generated calibration patterns have the stated geometry",
      "make_circle_mask is a centred disk of radius ratio * (width // 2). "
      "make_dot_pattern draws black disks on white at margin + half + "
      "k * distance (half = size // 2 + 1) with the dot size clipped to "
      "1..min(height, width) // 8, and refuses distances below the dot "
      "size; make_line_pattern draws lines of the clipped thickness at "
      "margin + k * distance, ending at the outermost lines; "
      "make_chessboard alternates squares of the given size inside a grey "
      "margin. Margins may be given per axis as (vertical, horizontal).",
      "all sizes, distances, margins and pixels within the bounds",
      "tests look at the shape and a few statistics of one pattern", [UTIL],
      ["make_circle_mask", "make_dot_pattern", "make_line_pattern",
       "make_chessboard"], over=("inputs",)),
    P("C32", "A corrected video shows every frame, corrected, until its end",
      "unwarp_video_cv2 reads frames until the video ends or ESC is "
      "pressed; each frame that was read is shown once, equal to what "
      "unwarp_image_backward_cv2 gives for it with the same centre, "
      "coefficients, padding, interpolation and border mode. Afterwards the "
      "camera is released and windows are closed. Frames are not modified.",
      "all frames, centres and coefficients and all lengths within the "
      "bounds", "no test opens a video", [UTIL],
      ["unwarp_video_cv2"],
      over=("inputs", "histories")),
    P("C33", "Perspective is taken out of curved grid lines consistently",
      "correct_perspective_effect moves all points of all lines by one "
      "perspective transform about the centre, the one that takes the "
      "crossing points of the representative lines (mean, median, most or "
      "least curved lines, on either side of the centre) to a rectangle; it "
      "raises ValueError when there are fewer than two lines or no lines "
      "bending both ways. For grids whose curvature is proportional to the "
      "offset, find_center_based_vanishing_points and its iterative version "
      "return the true centre; the iterative version corrects the perspective "
      "by the requested method in every step. Inputs are not modified.",
      "all line positions within the bounds",
      "tests use one simulated grid with loose tolerances", [PROC],
      ["correct_perspective_effect", "find_center_based_vanishing_points",
       "find_center_based_vanishing_points_iteration"], over=("inputs",)),
    P("C34", "Slope and distance of the pattern are measured correctly",
      "calc_hor_slope and calc_ver_slope return the slope of a tilted "
      "regular grid of dots. calc_slope_distance_hor_lines and "
      "calc_slope_distance_ver_lines return the slope belonging to the "
      "direction with the strongest projection, refined to 0.05 degree, and "
      "the median (more than three lines) or mean distance between "
      "neighbouring lines in that projection, for bright and dark "
      "background and for chessboards, inside the region of interest.",
      "all grid positions and projections within the bounds",
      "tests use one image per function", [PREP, LINE],
      ["calc_hor_slope", "calc_ver_slope", "calc_slope_distance_hor_lines",
       "calc_slope_distance_ver_lines"], over=("inputs",)),
    P("C35", "Chessboards become line patterns along the square edges",
      "convert_chessboard_to_linepattern returns, for every pixel, the mean "
      "of the absolute vertical and horizontal derivative of the (optionally "
      "smoothed) image, with the border (2 pixels, 4 when smoothed) filled "
      "from the nearest inner pixel, inverted for a bright background, and "
      "scaled to a mean absolute value of 1. The image is not modified.",
      "all pixel values within the bounds",
      "the test checks the shape", [LINE],
      ["convert_chessboard_to_linepattern"], over=("inputs",)),
    P("C36", "Normalising by FFT divides by the smoothed image",
      "normalization_fft returns, for images of any (even or odd) size, the "
      "image divided by its background and multiplied by the mean of the "
      "background, the background being the padded image filtered by a "
      "Gaussian window of the given sigma placed in the middle of its "
      "zero-centred spectrum, cropped back. So a uniform image is returned "
      "as it is, the shape is kept, a dark pixel on a background of exactly "
      "zero stays dark, and the image is not modified.",
      "all pixel values within the bounds",
      "the test checks one image with a tolerance", [PREP],
      ["normalization_fft", "_apply_fft_filter", "_make_window"],
      over=("inputs",)),
]

NOT_APPLICABLE = []
REASONS = {}
