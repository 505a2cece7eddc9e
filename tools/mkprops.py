#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for ids, titles, statements)."""
import json, os
T = "exorad/tasks/"; M = "exorad/models/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(zip(("name","meaning","where"), s)) for s in state],
                  "mechanism": [{"name": a, "where": b} for a, b in mech],
                  "observe_at": observe, "hook_needed": hook}})

p("C01", "An optical element's emission is attenuated by exactly the elements after it",
  "For every channel, the radiance recorded for each optical element that has a temperature is its emissivity (0 when none is given, 1 for a detector box without one) times the Planck radiance at its temperature times the transmission of every element placed after it on the light path, and of no other element. The light path is the payload's common elements in file order followed by the channel's own elements in file order; elements without a temperature contribute no radiance. This holds wavelength by wavelength.",
  ["configurations", "inputs"], "every ordered list of common and channel elements, every combination of element type, temperature, emissivity and transmission source, every wavelength zone",
  "The tests build one payload and only check that the transmission table looks plausible; a wrong order, a skipped or doubled factor, or a factor from the wrong side passes.",
  [M+"optics/opticalPath.py", M+"optics/opticalElement.py", M+"instruments/instrument.py"],
  [("ordered chaining of elements", M+"optics/opticalPath.py"), ("common elements are put before the channel's", M+"instruments/instrument.py")],
  ["radiance table of each built channel"])
p("C02", "A channel's transmission is the product of all its elements' transmissions",
  "For every channel the total transmission at each wavelength is the product of the transmissions of every element of the common and channel optical path, where an element's transmission is: the column of its data file selected by its 'use' (else Transmission, else Reflectivity) and zero outside the file's range; else the value selected by 'use', or the only one given of transmission and reflectivity; else 1. Element wavelength bounds cut a transmission given directly as a value to zero outside them, and when the payload forces channel edges the total is zero outside the channel's range. The value reported for each bin of the channel table is that total at the bin.",
  ["configurations", "inputs"], "every set of elements and every way of specifying a transmission, every wavelength zone, edges forced, not forced or unspecified",
  "One example payload is built; bounds, files, 'use' and absent edge options are exercised in a single combination with no value assertions.",
  [M+"optics/opticalElement.py", M+"optics/opticalPath.py", M+"instruments/instrument.py"],
  [("transmission table with total", M+"optics/opticalPath.py"), ("edge forcing and binning", M+"instruments/instrument.py")],
  ["transmission table, transmission data and TR column of each built channel"])
p("C03", "Each emitter keeps its own solid angle; only upstream light meets a slit",
  "The signal of an emitting element after the slit (or in a channel without slit) is its radiance times pixel area, quantum efficiency and photon conversion, integrated over wavelength under the solid angle pi for a detector box, pi minus the pixel's field of view for an optics box, the pixel's field of view for anything else, or the element's own solid_angle when it gives one, times the number of pixels in the window. Light emitted before a slit, and diffuse foreground light in a channel that has a slit, is instead dispersed: each pixel collects the light of as many neighbouring pixels as fit in the slit width, and each bin sums its pixels times the spatial window. Light emitted after the slit never is dispersed.",
  ["configurations", "inputs"], "every order of elements and boxes in a channel, of a slit in a spectrometer, every slit width, every custom solid angle",
  "No test looks at the signal of a single element, so the acceptance rule of any element type can change unnoticed.",
  [M+"optics/opticalPath.py", M+"optics/opticalElement.py", "exorad/utils/diffuse_light_propagation.py"],
  [("position of an element decides its angle", M+"optics/opticalElement.py"), ("slit convolution or plain integration", "exorad/utils/diffuse_light_propagation.py")],
  ["per-element signal table of each built channel", "foreground signal columns"])
p("C04", "Instrument totals are the sum of all element contributions, in both output modes",
  "In every channel table the instrument signal, and likewise its maximum signal per pixel, is the sum over all emitting elements of that element's contribution, each counted once. Asking for full contributions replaces the total by one signal column per emitting element holding that element's contribution (zero in the rows of channels that lack the element) and changes neither the maximum signal, the frame time nor the total noise of any target.",
  ["configurations", "inputs"], "every set of emitting elements over one or more channels, with and without full contributions",
  "Tests run the pipeline once with full contributions and look at no number.",
  [M+"optics/opticalPath.py", "exorad/exorad.py", "exorad/utils/util.py"],
  [("summation of element signals", M+"optics/opticalPath.py"), ("replacement of the total by its parts", "exorad/exorad.py")],
  ["channel tables", "target tables in the output file"])
p("C05", "Foreground light is filtered only by nearer foregrounds and the telescope",
  "For every target the signal of each foreground is its radiance times the transmission of every foreground listed after it (nearer to the telescope) and the channel's total transmission, collected under the pixel's field of view; neither its own transmission nor that of foregrounds listed before it applies. Each foreground listed in the payload, zodiacal or custom, yields exactly one signal column and one maximum-signal column, whatever their number, and a payload without foregrounds is observed normally with none.",
  ["configurations", "inputs"], "every ordered list of zero or more zodiacal and custom foregrounds and every transmission they carry",
  "The example payload has one fixed pair of foregrounds and tests never compare a foreground's signal with anything.",
  [T+"foregroundHandler.py", M+"instruments/instrument.py", M+"foregrounds/skyForegrounds.py", T+"targetHandler.py"],
  [("ordered foreground dictionary on the target", T+"foregroundHandler.py"), ("diffuse propagation from nearest to farthest", M+"instruments/instrument.py")],
  ["foreground columns of the target table"])
p("C06", "Star light is filtered by every foreground exactly once",
  "For every target the star's signal in each bin carries the product of the transmissions of all the payload's foregrounds times the channel's total transmission, each exactly once, and the reported foreground transmission of each bin is the product of all foreground transmissions there; the zodiacal light, and any wavelength outside a foreground's data file, count as transparent.",
  ["configurations", "inputs", "histories"], "every ordered list of foregrounds, every wavelength zone, every number of previous observations",
  "Tests never check the star signal against the foreground transmission, nor more than one custom foreground.",
  [T+"foregroundHandler.py", M+"instruments/instrument.py", M+"instruments/photometer.py", M+"instruments/spectrometer.py"],
  [("accumulated sky transmission on the target", T+"foregroundHandler.py"), ("efficiency includes sky transmission", M+"instruments/instrument.py")],
  ["star columns and foreground_transmission of the target table"])
p("C07", "The zodiacal level follows the factor, or the map entry nearest to the target",
  "The zodiacal radiance is a coefficient times one fixed spectrum. The coefficient is that of the zodiacal map's entry nearest to the target's coordinates (smallest squared difference in right ascension plus declination) when the map is enabled and the target has coordinates, taken from the user's map file when one is given and else from the packaged map; with the map disabled, without coordinates, or when the map cannot be read, it is the configured factor, and zero when there is none.",
  ["configurations", "inputs"], "every combination of map flag, factor, custom map and coordinates; every position",
  "Tests check one direction and one factor.",
  [M+"foregrounds/zodiacalForeground.py", T+"foregroundHandler.py"],
  [("coefficient selection", M+"foregrounds/zodiacalForeground.py")], ["zodiacal radiance of the target", "zodi columns of the target table"])
p("C08", "The target table is the channels' tables plus one column per result, row by row",
  "A target's table has one row per bin of every channel, channels in payload order and bins in channel order, and every value in a row is the one computed for that channel and bin; where a channel lacks a column another channel has, its rows hold zero. Merging a result table into a target's table replaces the columns it repeats, adds the new ones, keeps all others and the row order, and merges the metadata; merging never alters the tables that were merged in.",
  ["configurations", "inputs", "histories"], "every number of channels and rows, every overlap of columns, every sequence of merges",
  "Tests merge the two example channels, which have identical columns, and only compare lengths.",
  [T+"targetHandler.py", T+"instrumentHandler.py", "exorad/utils/util.py", T+"propagateLight.py"],
  [("stacking with zero fill", "exorad/utils/util.py"), ("replacement of repeated columns", T+"targetHandler.py")],
  ["target.table", "merged channel table"])
p("C09", "Saturation and frame times follow the summed maximum signal per pixel",
  "For each bin the maximum signal in a pixel is the sum of the maximum signals of the instrument, of each foreground and of the star; the saturation time is the channel's well depth divided by it. The channel's frame time is the forced one if the detector gives one, else the fraction of the well depth times the shortest saturation time among that channel's own bins, the same in all its rows.",
  ["configurations", "inputs"], "every set of contributors, rows and channels, forced and computed frame times",
  "Tests never compare these columns with each other; one channel's minimum or a missing contributor goes unnoticed.",
  [M+"noise.py", T+"targetHandler.py", T+"noiseHandler.py"],
  [("max signal sum", T+"targetHandler.py"), ("frame time rule", M+"noise.py")], ["MaxSignal_inPixel, saturation_time and frameTime columns"])
p("C10", "The noise budget is the quadrature sum of every source, over the star signal",
  "For each bin the photon-noise variance of every signal column, the dark-current variance (window pixels times dark current) and the read variance (window pixels times squared read noise per frame time) are formed with the channel's own shot and read gains on a one hour scale. The total noise is the square root of the dark and read variances plus (1 + the channel's NoiseX) times the summed photon variance, divided by the star's signal in the aperture, and undefined (NaN) where that signal is zero; no row uses another channel's or another bin's values.",
  ["configurations", "inputs"], "every number of channels, bins and signal columns, NoiseX present or absent, zero signals",
  "The noise tests compare one photometer value with a loose tolerance.",
  [T+"noiseHandler.py", M+"noise.py"],
  [("per-channel noise estimation", T+"noiseHandler.py"), ("photon variance over all signal columns", M+"noise.py")], ["noise columns of the target table"])
p("C11", "Multiaccum gains follow the number of reads per frame and their grouping",
  "With n the whole number of non-destructive reads fitting in a frame (never fewer than two, which is the correlated double sampling limit) and m the grouping (1 when not given), the read gain is 12(n-1)/(n(n+1)m) and the shot gain 6(n*n+1)/(5n(n+1)). The frame time used is the channel's own.",
  ["configurations", "inputs"], "every frame time, read rate and grouping",
  "The example payload only uses a zero read rate, so n is always 2 and m always 1.",
  [M+"noise.py", T+"noiseHandler.py"], [("gain formulas and forced minimum", M+"noise.py")], ["returned gains", "read_noise and photon noise columns"])
p("C12", "Every custom noise adds in quadrature, common ones to all channels",
  "Each custom noise of the payload's common section is added in quadrature to the total noise of every bin of every channel, and each custom noise of a channel to that channel only, as parts per million for a constant or as the interpolated column for a data file; each appears in its own column named after it. This holds for any number of custom noises, including several with the same value.",
  ["configurations", "inputs"], "any number of common and channel custom noises, equal or different values, constants or files",
  "Tests include the example's custom noises without checking the total; equal values and files never occur.",
  [M+"noise.py", T+"noiseHandler.py", T+"loadOptions.py"], [("custom noise addition", M+"noise.py"), ("repeated tags", T+"loadOptions.py")], ["total_noise and custom noise columns"])
p("C13", "A target's result depends on that target and the payload only",
  "Observing a target list gives each target the same table (columns, values and metadata) as observing it alone on a freshly prepared payload, whatever the other targets are, whatever the order of the list and whatever the number of parallel workers. Observing never changes the payload description, the channels' tables or their built data.",
  ["schedules", "histories", "configurations"], "all target lists and orders, all earlier observations, all numbers of workers",
  "Tests observe a two-target list once; order, history and parallelism are never compared.",
  [T+"targetHandler.py", T+"propagateLight.py", M+"instruments/instrument.py", "exorad/utils/util.py"],
  [("per-target observation over shared channels", T+"targetHandler.py"), ("process pool", T+"targetHandler.py")],
  ["observed target tables", "payload and channels before and after"])
p("C14", "A target that cannot be observed is skipped and costs no other target anything",
  "If some targets of a list cannot be observed (missing or unusable information), observing the list and running the pipeline still complete, every other target is observed and written to the output exactly as if the failing ones were not in the list, and no result is produced for a failing one. This holds wherever failing targets are in the list, for any number of workers.",
  ["fault_sequences", "schedules", "inputs"], "every subset and position of failing targets, every kind of failure, any number of workers",
  "No test contains a failing target.",
  [T+"targetHandler.py", "exorad/exorad.py"], [("exception containment per target", T+"targetHandler.py"), ("saving loop", "exorad/exorad.py")],
  ["returned dictionary of targets", "targets group of the output file"])
p("C15", "Repeating an observation or a step gives the same result again",
  "Observing the same target again, any number of times, with the same or another payload in between, gives the table that a fresh target would get; repeating the foreground, propagation or noise step on a target leaves its table as it was after the first time, or, when the star's spectrum was changed in between, gives the columns of the changed spectrum.",
  ["histories"], "every sequence of observations and repeated steps on one target",
  "Tests observe each target object once.",
  [T+"targetHandler.py", T+"foregroundHandler.py", T+"noiseHandler.py", M+"noise.py"],
  [("table update replaces repeated columns", T+"targetHandler.py")], ["target.table after each step"])
p("C16", "A payload saved to an output file observes like the one that was built",
  "Loading the payload from an output file gives the same channel tables, built data, wavelength range and description values as the payload that was built and written, and observing any target with it gives the same table as with the built one, for any number of channels, foregrounds and custom noises and any source option. A loaded channel refuses to be built again.",
  ["configurations", "histories"], "every payload structure (one or more channels, zero or more foregrounds and custom noises, every source kind)",
  "Tests load one payload back and check two entries; they never observe with it.",
  [T+"instrumentHandler.py", "exorad/output/hdf5/util.py", "exorad/output/hdf5/hdf5.py", M+"instruments/instrument.py"],
  [("write of description, table and built data", M+"instruments/instrument.py"), ("payload loading", T+"instrumentHandler.py")],
  ["payload, channels and observed tables"])
p("C17", "Stored dictionaries read back with the same keys, numbers, units and tables",
  "Any nested dictionary of numbers, booleans, text, number arrays, number lists, quantities, signals and tables stored in an output file is read back with the same nesting and keys, equal numbers in the same order and shape, the same units, the same text, and tables with the same columns, units, row order and metadata.",
  ["inputs"], "every nesting and mix of the supported value kinds",
  "Tests write a few sample values and hardly read them back.",
  ["exorad/output/hdf5/util.py", "exorad/output/hdf5/hdf5.py", "exorad/output/output.py", "exorad/utils/util.py"],
  [("recursive store", "exorad/output/hdf5/util.py"), ("recursive load", "exorad/output/hdf5/util.py")], ["load() of the written group"])
p("C18", "An output file holds what was asked: appending keeps, replacing discards",
  "Opening an output file for append keeps everything it holds and opening it anew discards it; in both cases it carries the program information once. The pipeline writes the payload it built, with all channels, and every observed target under its name, puts copies of the payload and target files beside the output, and discards an earlier output file only when asked to replace it; a run that cannot be done keeps what the output held. It never modifies, truncates or deletes its input files, even when the output is one of them or has the name of one (asked to replace an input file, it fails).",
  ["histories", "configurations"], "every sequence of opens, writes and pipeline runs on one file, with and without replacing",
  "Tests run the pipeline once into a fresh file.",
  ["exorad/exorad.py", "exorad/output/hdf5/hdf5.py", T+"instrumentHandler.py", M+"target.py"],
  [("open modes", "exorad/output/hdf5/hdf5.py"), ("replace and copy rules", "exorad/exorad.py")], ["content of the output directory and file after each step"])
p("C19", "A payload description parses into exactly the structure and values it states",
  "Each tag of a payload description becomes an entry holding its attributes, its sub-tags and its value: integer, float, boolean or text as written (trimmed), a quantity when it has a unit, with the configuration-path placeholder replaced by the file's path or the one given for the run. Repeated tags become an ordered collection keeping every repetition in file order, also when repetitions have equal values; data files are loaded as tables. Asking for the channels of a class lists all those of it in file order, in whatever letter case the class is written. Parsing a file never depends on what was parsed before; a missing or non-xml file is an OS error.",
  ["inputs", "histories"], "every tree of tags and values, every sequence of parsed files",
  "Tests parse the example only.",
  [T+"loadOptions.py"], [("recursive parser", T+"loadOptions.py")], ["returned dictionary"])
p("C20", "A task call sees its own arguments and defaults only, and rejects unknown ones",
  "Each call of a task sees exactly the arguments passed to that call, with declared defaults for those omitted; nothing leaks from an earlier call, from another instance or from another task class. A call with an undeclared argument raises ValueError without executing, and a successful call returns what that execution produced.",
  ["histories", "inputs"], "every sequence of calls with every subset of arguments on several tasks and instances",
  "One test calls a task once with a wrong name.",
  [T+"task.py"], [("input validation and defaults", T+"task.py")], ["values seen in execute, returned value, raised error"])
p("C21", "Observation never changes the user's logging level for good",
  "Setting a log level applies to the screen output; disabling shows errors only until enabling, which restores the level in force before disabling. After a target list is observed, with successful or failing targets, the screen level is the one the user had set, in debug mode every target's messages at the user's level are shown, and log files receive all messages throughout, each of them once however often the same file was added. A target that is skipped is announced by a warning at any level that shows warnings.",
  ["histories", "fault_sequences"], "every sequence of level changes, disabling, enabling and observations",
  "Logging is called in tests only to silence output.",
  ["exorad/log/__init__.py", "exorad/log/logger.py", T+"targetHandler.py"], [("level of the screen handler", "exorad/log/__init__.py")], ["handler level, emitted records, log file"])
p("C22", "Every target-list row becomes one target with its own values and units",
  "A target list, as csv, xlsx or table, yields one target per row, in row order, numbered from zero; each star (and planet) column becomes an attribute named by the column, with the row's own value carrying the unit in brackets, text columns staying text. The target's name is the planet's if the list has planets, otherwise the star's; mission reference lists are recognised and their column names and units translated; a table with a plain number without unit, and an unknown extension, are rejected. Searching a list gives, in its order, the targets whose star's or planet's name has the text searched for as a part, whatever the spaces, hyphens and letter case of both.",
  ["inputs"], "every table shape: any number of rows and columns, units, planets, both csv dialects",
  "Tests load the two-row example lists.",
  [M+"targetlist.py", T+"targetHandler.py"], [("column name and unit parsing", M+"targetlist.py"), ("format choice", T+"targetHandler.py")], ["list of targets and their attributes"])
p("C23", "Spectral bins tile the channel's range without gaps or overlaps",
  "A photometer has one bin spanning exactly its range. With a constant or tabulated resolving power a spectrometer's bins are contiguous and increasing, start at its minimum wavelength and reach its maximum, with no superfluous bin beyond it, each as wide as the resolving power at its left edge asks (tabulated: edges rounded to 1e-4 micron, and a last piece shorter than half a bin becomes part of the bin before it, which then ends exactly at the maximum). At native resolution there is one bin per detector pixel from the position of one end of the range to the other, centred and as wide as the wavelengths the pixel samples, in increasing wavelength, whichever way the solution runs. In every channel centre, width and edges of each bin agree and no bin's centre lies outside its edges; the units in which ranges, solutions and pixels are written make no difference.",
  ["configurations", "inputs"], "every range, resolving power and mode",
  "Tests build one spectrometer with R=20 and native resolution and compare few numbers.",
  [M+"instruments/spectrometer.py", M+"instruments/photometer.py"], [("wavelength table", M+"instruments/spectrometer.py")], ["Wavelength, Bandwidth and edge columns"])
p("C24", "Rebinning averages when coarsening, interpolates otherwise, is zero outside",
  "Rebinning a signal to a grid coarser than all its own spacings gives in each new bin the mean of the samples falling in it, bins meeting halfway between neighbouring new grid points and the outermost ones reaching a quarter of a spacing beyond, and zero in bins without samples; to any other grid it gives the linear interpolation between neighbouring samples and zero outside the sampled range, whatever the order of the two grids. Missing (NaN) or repeated grid points do not change the rest of the result, the units are kept, and grids in different units are rejected.",
  ["inputs"], "every pair of grids and sample values",
  "Tests rebin one pair of grids.",
  ["exorad/utils/exolib.py", M+"signal.py"], [("grid comparison and binning", "exorad/utils/exolib.py"), ("missing values to zero", M+"signal.py")], ["data and grid after rebinning"])
p("C25", "The star's spectrum is the configured source, scaled to its size and distance",
  "The spectrum of a target is that of the configured source: a blackbody at the star's temperature times pi(R/D)^2, the given file's spectrum times (R/D)^2, or the available Phoenix model nearest in temperature, gravity and metallicity times (R/D)^2; a temperature outside the available models, or an unknown source name, means the blackbody. A target lacking a needed quantity (radius and distance; also mass and temperature unless a file is given) is rejected, and keeps the spectrum it had. The target records which model was used, its luminosity (4 pi R^2 times the flux of that spectrum) and its spectrum on the requested wavelength range, whichever way round and in whichever units the range is given.",
  ["inputs", "configurations"], "every source option, star, set of models and missing quantity",
  "Phoenix models are not available to the tests and the custom file is missing; only the blackbody runs.",
  [T+"loadSource.py", M+"source.py", M+"target.py"], [("source choice and fallback", T+"loadSource.py"), ("model selection", M+"source.py")], ["target.star.sed, model, luminosity"])
p("C26", "Every star photon is counted in its own bin, once, or not at all",
  "The star's signal in a bin counts the star's photons whose wavelength lies in that bin, weighted by collecting area, total transmission, quantum efficiency and foreground transmission; a photometer counts its whole response. With forced edges no photon outside the channel's range is counted and the star's flux is restricted in the same way. A photometer's aperture signal is the signal times the aperture correction, else the encircled energy fraction, else one; a spectrometer's equals its signal. The brightest pixel receives the share of the image that falls on it.",
  ["configurations", "inputs"], "every channel range, bin layout, edge option and aperture option, light at every wavelength",
  "Tests check no signal value.",
  [M+"instruments/photometer.py", M+"instruments/spectrometer.py", M+"instruments/instrument.py"], [("window function and integration", M+"instruments/spectrometer.py")], ["starFlux, starSignal and star_signal_inAperture columns"])
p("C27", "Extraction windows follow the aperture rules and overrides",
  "A photometer's window is the squared aperture radius times both f-numbers times the squared wavelength over the squared pixel size when a radius is given (the squared radius alone for an image in pixels), and the area of the circle holding the encircled energy fraction when that is given for an image in pixels, whatever the fraction. A spectrometer's window is its spectral width (the pixels its bin spans on the wavelength solution) times its spatial width (twice 1.22, or twice the tabulated radius, times the cross-dispersion f-number and wavelength over the pixel size), where the spatial scale multiplies the computed width and explicit pixel widths replace it in either direction.",
  ["configurations", "inputs"], "every combination of radius, scale, override, f-number, pixel size and bin",
  "Tests never check the window size.",
  [M+"instruments/photometer.py", M+"instruments/spectrometer.py"], [("window size rules", M+"instruments/spectrometer.py")], ["WindowSize column and built window data"])
p("C28", "Signals accept only consistent shapes and convertible units, and convert them",
  "Creating a signal converts wavelength, data and time to its fixed units, taking plain numbers as already in them and keeping the represented quantity equal; inconvertible units, multi-dimensional grids, more than two data axes, and data whose length disagrees with the wavelength grid (or, in two dimensions, with the time grid) are rejected. The inputs are not modified.",
  ["inputs"], "every combination of units and shapes for every signal kind",
  "Tests try a handful of mismatches.",
  [M+"signal.py", M+"noise.py"], [("quantity and size checks", M+"signal.py")], ["constructed signal or raised error"])
p("C29", "Target selection by range text picks exactly the listed indices",
  "A selection text of comma separated indices and ranges, written with a dash or a colon, selects each listed index and every index of each range including both ends, in the order written; 'all' selects every available index, 'none' none, and text that is not such a list selects nothing and does not fail.",
  ["inputs"], "every selection text",
  "One test tries a few texts.",
  ["exorad/utils/util.py", "exorad/utils/plotter.py"], [("range parser", "exorad/utils/util.py")], ["returned index list"])
p("C31", "A channel's results do not depend on how, or with whom, it is described",
  "Two payload descriptions that say the same thing give the same channels and observations: every quantity may be given in any unit of its kind (lengths, areas, temperatures, rates, frequencies, times, solid angles, and the columns of data files), a quantity that is flat in wavelength may be a number or a table, the tags of a section may come in any order with comments among them, and the channels in any order. What a channel shows depends on the common part and its own section only, not on which other channels the payload has, nor on what was built or observed before.",
  ["configurations", "histories"], "every unit of every described quantity and data column, every order of tags and channels, every subset of channels",
  "Tests build one payload written in microns, kelvin and seconds.",
  [M+"instruments/instrument.py", M+"instruments/photometer.py", M+"instruments/spectrometer.py", M+"optics/opticalElement.py", M+"optics/opticalPath.py", T+"loadOptions.py", T+"instrumentHandler.py", "exorad/utils/diffuse_light_propagation.py", M+"noise.py"],
  [("conversion of quantities where they are used", M+"instruments"), ("parsing of tags and units", T+"loadOptions.py")], ["target table of an observation, channel by channel"])
p("C32", "The brightest pixel gets the share of the star's image that falls on it",
  "The star's signal in the brightest pixel (for a spectrometer, in the brightest column of pixels) is the star's signal times the share of the described image that one pixel can catch: an image in pixels is taken as it is; on an image sampled in units of f-number times wavelength, along each axis with its own f-number, a pixel is laid symmetrically about a sample or a border of samples, and samples it covers partly count in part; of several images, given as a folder of FITS files, the one nearest in wavelength to the light is used; of a PAOS file the detector image tabulated at the wavelength, or interpolated between the two tabulated wavelengths next to it, with its own sampling; without an image, the diffraction pattern of a circular aperture. A spectrometer's wavefront error reduces the share by the Strehl factor exp(-(2 pi sigma/wavelength)^2), in whichever unit of length it is given. Pixels are not smaller than a sample of the image, and the image is sampled alike in both directions.",
  ["inputs", "configurations"], "every image, sampling, pixel size, pair of f-numbers, set of image wavelengths and wavefront error",
  "Tests only run one PSF file each and compare no share.",
  ["exorad/utils/exolib.py", M+"instruments/photometer.py", M+"instruments/spectrometer.py"],
  [("image choice and pixel response", "exorad/utils/exolib.py"), ("PSF gain and Strehl factor", M+"instruments/spectrometer.py")], ["star_MaxSignal_inPixel over the star's signal"])
p("C33", "Plots show what the tables and channels hold",
  "The plot of a target's table draws one line per collected signal (of the instrument or its elements, of each foreground, of the star in its aperture) and one per noise, labelled by the column, through every bin of the table, in the table's order, at the bin's wavelength: signals as they are; noises as they are when they are relative to the star already (total noise and custom noises), else divided bin by bin by the star's signal in the aperture; behind them, for each channel, a band from its lowest to its highest bin edge. The efficiency plot shows for every channel its transmission, its quantum efficiency and their product. A saved figure is the one last made; a figure that was not made is not saved, which is no error; plotting changes neither the table nor the channels, and asking for plots, whether or not there is a place to save them, loses no target. A run asked for plots leaves one per target, under the target's name, beside the output and exorad-plot draws the same from an output file.",
  ["inputs", "configurations", "histories"], "every table, set of channels, order of drawing and saving, output file and run",
  "Tests check that plotting does not raise for one payload.",
  ["exorad/utils/plotter.py", "exorad/exorad.py", "exorad/tasks/targetHandler.py"],
  [("lines, bands and relative noises", "exorad/utils/plotter.py"), ("plots of a run", "exorad/tasks/targetHandler.py")], ["lines and spans of the figures", "saved files", "observed targets"])
p("C34", "The command line does what its options say",
  "exorad reads its options in any order and in every way of writing them (short, long, joined to their value, flags bundled; of a repeated option the last counts) and then observes the given targets with the given payload: with -o it leaves one output file (a former one of that name is replaced, its folder is made) with the observed targets and the described payload, and copies of both inputs beside it; without -o it leaves no file but a log; -c replaces the instrument's signal in the targets' tables by one column per optical element; -n observes in at most so many other processes and otherwise one by one in its own; -d shows debug messages on the screen and without it none are shown; -l adds everything, debug messages included, to exorad.log in the working directory; -P leaves a picture per target and one of the efficiency beside the output. Options other than -c change no number in the tables, which are those the Python interface gives for the same payload and target; a payload may be an output file of a former run. Unknown, incomplete or missing required options are refused with exit status 2 and a usage text; inputs that do not exist or that are the output file themselves end the command with an error; neither changes any file but the log.",
  ["inputs", "configurations", "histories"], "every sequence of command lines in one place",
  "No test runs the command.",
  ["exorad/exorad.py"], [("options and their effects", "exorad/exorad.py"), ("one by one or by helpers", "exorad/tasks/targetHandler.py")], ["exit status", "screen", "files", "processes"])
p("C35", "Newer releases are told of, and nothing else disturbs",
  "Importing the package, or asking for a version check, looks up the changelog of the package's own repository (or of the given one) and warns exactly when its newest release is not the installed one: the warning names both and tells every line of the changelog from the newest release down to, and without, the installed one, in order and without empty lines; what is not released is not told. A user who insists gets a VersionError then. No network, a site that refuses, is slow, breaks off or answers with something other than a changelog is no reason to warn and never stops the import or the caller, and the check leaves the process' other sockets as patient as they were.",
  ["inputs", "environment faults", "histories"], "every changelog, installed version and trouble of the network",
  "The tests need the network and accept whatever happens.",
  ["exorad/utils/version_control.py", "exorad/__init__.py"], [("changelog, versions, network", "exorad/utils/version_control.py"), ("the check at import", "exorad/__init__.py")], ["warnings", "raised errors", "requests", "socket settings"])
p("C30", "Physical constants, PSF shapes and field-of-view integrals are accurate",
  "The Planck radiance, the point spread function and its encircled energy, and the solid angle of a pixel's field of view agree with their physical definitions to the accuracy of the stated constants.",
  ["inputs"], "every wavelength, temperature, f-number and PSF file",
  "Tests compare a few values; accuracy over the whole domain is a numerical analysis question.",
  ["exorad/utils/exolib.py"], [("numerical formulas", "exorad/utils/exolib.py")], ["returned arrays"])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
