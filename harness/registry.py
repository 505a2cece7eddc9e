"""which subsystem modules decide which property, and what to say about it"""
REGISTRY = {
    "C01": ["optics"], "C02": ["optics"], "C03": ["optics"], "C04": ["optics"],
    "C05": ["sky"], "C06": ["sky"], "C07": ["zodi"], "C08": ["tables"],
    "C09": ["noise"], "C10": ["noise"], "C11": ["noise"], "C12": ["noise"],
    "C13": ["observe"], "C14": ["observe"], "C15": ["observe", "noise"],
    "C16": ["outfile"], "C17": ["store"], "C18": ["outfile"], "C19": ["options"], "C20": ["tasks"], "C21": ["loglevels"], "C22": ["targets"], "C23": ["channels"], "C24": ["rebin"], "C25": ["sources"], "C31": ["dialect"], "C26": ["starlight"], "C32": ["images"], "C27": ["channels"], "C28": ["signals"], "C29": ["ranges"], "C33": ["figures"], "C34": ["commands"], "C35": ["versions"],
}
NOTES = {
    "C01": ("TLA+ optical path model (light in photons, mirrors and surfaces in path order); TLC-generated payload descriptions are built by the real code and TLC validates every recorded table",
            "Exhaustive model of small paths; the generated payloads sample paths, elements, bounds and channels over exact powers of two, so every table entry has one expected integer value. Numerical accuracy beyond that grid is outside."),
    "C02": ("TLA+ optical path model: transmission as sum of exponents of two over the elements in force per wavelength; real payloads from TLC, TLC validates the recorded transmission",
            "Transmissions are powers of two on integer wavelengths, so products are sums of integers; every generated bin is compared."),
    "C03": ("TLA+ optical path model of solid angles and slit dispersion; conformance of real payloads", "Solid angles are recovered from the recorded signals of built channels over generated element sequences."),
    "C04": ("TLA+ optical path model: totals are the sums over the surviving elements; conformance of real payloads", "Recorded totals and per-element contributions of generated payloads."),
    "C05": ("TLA+ foreground chain model; TLC-generated skies observed by the real code, recorded foreground tables validated by TLC", "Generated chains of up to four foregrounds, targets observed one after another with the same payload."),
    "C06": ("TLA+ sky transmission model; conformance of real observations", "Same generated skies as C05, looking at the star's light and the recorded transmission."),
    "C07": ("TLA+ decision model of the zodiacal level; generated maps, coordinates and levels given to the real code", "Generated custom maps on a small integer grid, nearest position decided exactly."),
    "C08": ("TLA+ model of table assembly (rows, columns, presence, metadata); TLC-generated channel tables merged by the real code", "Values are tokens; every generated cell, unit and metadata entry is compared."),
    "C09": ("TLA+ noise budget model (pixel signal, saturation, frame time, integer arithmetic); TLC-generated channel tables given to the real noise and signal tasks, recorded tables validated by TLC", "Generated signals, well depths and fractions chosen so that every expected time and flag is an exact integer; rounding at exact ties of the saturation threshold is not decided."),
    "C10": ("TLA+ noise budget model: variances add, each light source contributes its own; conformance of the real noise task", "Generated tables with named, empty and repeated sources; the recorded variances are compared as integers."),
    "C11": ("TLA+ model of multiaccum reads as a function of frame time and reading frequency; conformance of the real noise task", "Frame times and frequencies over a generated grid in several units; one read more or less is accepted exactly at a divisibility boundary."),
    "C12": ("TLA+ noise budget model with custom noises by name, channel and wavelength; conformance of the real noise task", "Generated custom noises as constants, per channel values and data files in each supported unit."),
    "C13": ("TLA+ model of observations as step sequences over shared payloads, target objects, process-wide settings, worker copies and output files (isolation invariant checked exhaustively); TLC-simulated histories are replayed by the real code and every recorded table is named by comparison with the same target observed alone in a fresh process, TLC validates the history", "Random histories of calls (7 quick, 12 thorough) over up to 4 payloads and 4 targets, 1-3 workers, single steps, lists, whole pipelines with and without plots, full contributions and debug; the model itself is exhausted for 2 targets and 3 payloads."),
    "C14": ("same histories and model as C13, with targets that lack a needed quantity (absent, blank, without unit, wrong unit, None) anywhere in the lists; returned names, written groups and everything written for the others validated by TLC", "Failures are missing or unusable star quantities; a failing process (killed worker) is outside."),
    "C15": ("same histories and model as C13 plus the noise budget model: repeated observations with other payloads in between, repeated single steps; recorded column groups validated by TLC", "Repeats of every step at every point of an observation in progress or finished, on generated histories."),
    "C17": ("TLA+ model of nested stored dictionaries (entries by path, what is stored is what is read); TLC-generated trees stored in real HDF5 files over several opens and groups, everything read back validated by TLC", "Random trees (depth 3 quick, 4 thorough) of every supported kind incl. units, numpy scalars, signals, tables with metadata, names with dots and blanks; lists of text and keys containing '/' are not generated."),
    "C16": ("TLA+ model of output files, payloads saved in them and what a payload in memory is (OutputFile.tla); TLC-generated histories of writing, preparing, loading, observing, rebuilding and running, done with the real code; payload descriptions, tables, built data, range and observed targets identified against freshly built ones and validated by TLC", "Random payloads (one or two channels, foregrounds, sources, custom noises, units, names with blanks and dots) and histories of up to 8 operations; payloads are compared value by value, exactly."),
    "C18": ("TLA+ model of output files and pipeline runs over a directory (OutputFile.tla, exhaustively checked for small histories); TLC-generated histories run with the real code in scratch directories, every file of which is identified (text by digest, groups against runs alone) after each step and validated by TLC", "Two output directories with the inputs in one of them, names that clash with inputs, replace/append/full contributions/plots/dictionaries as payload; histories of up to 8 operations; crashes in the middle of a write are not modelled."),
    "C19": ("TLA+ parser model (trees of tags to dictionaries, repeated tags, path placeholder); TLC-generated trees written as XML, parsed by the real code, results validated by TLC", "Random trees up to the generator's depth with repeated, empty and equal tags, units, data files and parsing histories; texts from a fixed alphabet."),
    "C22": ("TLA+ model of target lists (columns, units, dialects, rows to targets); TLC-generated lists written as csv, csv in the mission dialect, xlsx and tables, loaded by the real code, targets validated by TLC", "Generated columns, units, missing cells and row counts; workbooks are written by hand in the minimal format xlrd reads."),
    "C23": ("TLA+ model laying a channel's bins one by one (Channel.tla, exhaustive over small descriptions); TLC-generated channels are built by the real code and TLC replays every row of the recorded wavelength table as a step", "Generated ranges (whole numbers of bins included), resolving powers, tables, bent and reversed wavelength solutions and units; edges compared to 3e-6 micron, native pixels to 5e-4 micron (their position is kept to 0.01 micron)."),
    "C26": ("TLA+ model counting a star's photons sample by sample into bins (Starlight.tla, invariants: no photon twice, none invented, none lost inside the bins, none from outside forced edges); TLC-generated channels and spectra observed by the real code, recorded star columns compared with the counts", "Photons are put where transmission and efficiency are settled (not on their steps nor just inside forced edges, where they are sampled); brightest pixel of spectrometers for flat spectra only; 0.6 percent."),
    "C27": ("same model and channels as C23: windows from radius, encircled energy, tabulated radii, scale and overrides, in decimal arithmetic of the specification", "Windows compared to 0.6 percent; encircled energy only for images in pixels, between whole radii."),
    "C25": ("TLA+ model of the sources of a spectrum (Source.tla: which spectrum may be given, which model is nearest, when it is refused); TLC-generated folders of models, targets and requests made of the real task one after another, each result validated as a step", "Synthetic stellar models of distinct spectral slopes identify the spectrum used; scale and luminosity compared to 0.6 percent; ties of distance within rounding may go either way."),
    "C31": ("TLA+ model of descriptions and their meaning (Dialect.tla: amounts times sizes of units in exact fractions, order and forms without meaning; invariant: retelling keeps the meaning); TLC-generated histories of retelling, altering and observing one instrument run with the real code, TLC validates that equal meanings show equal tables", "All columns of the observed target's table compared channel by channel to 0.4 percent; two spectrometers and a photometer with slit, files, boxes and foregrounds; ranges do not coincide with pixel borders."),
    "C24": ("TLA+ model of rebinning on integer grids (bins, means, neighbours); TLC-generated grids given to the real code", "Integer grids with exact rational expectations; generated sizes and orders, NaN and repeated points."),
    "C33": ("TLA+ model of figures drawn line by line and band by band from a table and from channels (Figure.tla; invariants: a line per column through every bin, bands hold their channel's bins); TLC-generated tables, channels, output files, runs and orders of drawing and saving given to the real plotter, lines and bands read back from the figures and validated by TLC, which draws them itself", "Figures are read as matplotlib artists (lines, spans and labels) before they are saved, also by worker processes and by the plotting command; colours, ticks and limits are not looked at. Channels' edges and wavelengths to a tenth of a nanometre, values to three digits, efficiencies on plateaus of powers of two."),
    "C34": ("TLA+ model of a command reading its words and of the files it leaves (Command.tla, exhaustive for histories of three commands; invariants: commands that are refused or fail change nothing, nobody's files are lost, inputs stay); TLC-generated command lines given to the real command as processes, one after another in one place; exit status, screen, observing processes and every file validated by TLC", "Two instruments, two lists of targets, payloads in xml and as output files; tables are compared to those of the Python interface by six digits. What a log says is only required to grow and to hold debug messages. A malformed payload, or an output file without payload given as one, is outside."),
    "C35": ("TLA+ model of a changelog read line by line for what is newer than the installed release (VersionCheck.tla, exhaustive for short changelogs; invariants: silent about what is installed or cannot be read, what is told is the whole piece above the installed release); TLC-generated changelogs and network troubles put before the real check, called or run by importing the package again; warnings, outcome, asked repository and socket settings validated by TLC", "Connections and requests are stand-ins at the edge of the process (socket connect, HTTP adapter). The installed release is in the changelog or older than all of it; invalid UTF-8 is outside."),
    "C32": ("TLA+ model of a pixel sliding over a star's image (Image.tla: which image of several, its sampling, samples covered in part; invariants: never more than the image, never less than its brightest sample, all of it when the pixel is as large); TLC-generated images in four forms given to real channels, recorded brightest pixels validated by TLC, which slides the pixel over every place", "Random pictures up to 15x15 with integer light, pixels of quarters of a sample; shares compared to 0.8 percent for photometers, 2.2 percent for spectrometers (interpolated gain over a narrow channel); without an image, a table of Airy shares for rectangles of quarters of F times wavelength, and the image may be cut as far out as 5.5 percent of the light."),
    "C21": ("TLA+ model of loggers, the screen handler's level, disable/enable and log files (LogLevels.tla, exhaustive for short histories); TLC-generated histories of settings, messages and observations run with the real code, everything shown and filed validated by TLC", "Messages are tokens caught on the real handlers; observations of failing and succeeding targets are real LoadTargetList/ObserveTargetlist runs."),
    "C28": ("TLA+ model of signal creation (units as rational factors per dimension, shapes as tuples); TLC-generated inputs given to every real signal class, the outcome validated by TLC", "Integers times powers of units: converted values are compared as integers after multiplication by the unit's denominator; four input forms, every pair of dimensions."),
    "C29": ("TLA+ character-level model of selection texts; exhaustive short texts and TLC-generated long ones given to the real parser and the real plotting command, results validated by TLC", "All texts over a small alphabet up to length 4 (quick) or 5, and generated lists of longer items."),
    "C20": ("scripts from TLC behaviours drive real Task objects, TLC validates the recorded histories",
            "Exhaustive on the model for 4 instances of 3 classes, nested calls and 2 accepted calls; the real task machinery is driven through random longer histories (8 calls, nesting 3, falsy and mutable values) and each step is checked against the model."),
}
NOT_APPLICABLE = {
    "C30": "Numerical accuracy of closed formulas and quadrature over real intervals: a statement about floating point error, not about states and transitions. TLA+/TLC has no reals; a specification could only restate the formula.",
}
