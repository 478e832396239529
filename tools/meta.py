#!/opt/venv/bin/python
"""Regenerate properties.jsonl and MANIFEST.json from this table (development helper, not used by the checks)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, level_note, state=()):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, level_note=level_note, state=state))


BB, RT, NIR, SOL, UT, RR, RAY, IR, CFG, TST = ["pyspectral/%s.py" % x for x in (
    "blackbody", "radiance_tb_conversion", "near_infrared_reflectance", "solar", "utils", "rsr_reader", "rayleigh",
    "atm_correction_ir", "config", "testing")]

prop("C01", "Black body radiance obeys Planck's law pointwise",
     "For every positive wavelength (or wavenumber) and temperature, scalar or 1-d array, the black body functions return "
     "exactly Planck's law in SI units, with one row per temperature and one column per wavelength. "
     "Temperatures whose magnitude is too small to be physical, and missing ones, give NaN "
     "and never affect other elements; the inputs are not modified.",
     ["inputs"], "all wavelengths/wavenumbers > 0, all temperatures incl. zero and NaN, all array lengths and float types",
     "The tests compare a handful of temperatures and two wavelengths; the law must hold at every point and length.",
     [BB], [("planck", BB), ("blackbody", BB), ("blackbody_wn", BB)],
     ["blackbody()", "blackbody_wn()", "planck()"],
     "Every obligation of planck/blackbody/blackbody_wn proved for all inputs and lengths over the reals; exp is "
     "axiomatised, float rounding is outside the model and covered by a seeded run-time check of the same contract.")
prop("C02", "Brightness temperature inversion is the exact inverse of Planck's law",
     "For every positive wavelength (wavenumber) and positive radiance the radiance-to-temperature functions return the "
     "temperature at which Planck's law gives that radiance, for scalars, integers and arrays of any shape. Non-positive or "
     "missing radiances never disturb other elements and inputs are not modified.",
     ["inputs"], "all wavelengths, radiances (incl. zero, negative, NaN), all array shapes and element types",
     "Tests invert two values; the inverse relation and the element-wise frame hold for all values.",
     [BB], [("blackbody_rad2temp", BB), ("blackbody_wn_rad2temp", BB)],
     ["blackbody_rad2temp()", "blackbody_wn_rad2temp()"],
     "Closed form and round trip proved for all inputs over the reals; log/exp axiomatised.")
prop("C03", "Chunked and labelled arrays give the same values, lazily, as plain arrays",
     "The temperature and radiance functions that accept chunked (dask) or labelled (xarray) arrays give, for every "
     "chunking and whether the argument is passed by position or keyword, element by element the plain-array result, keep "
     "type, shape, labels and attributes, and do not compute or modify their input before the result is asked for. Single "
     "precision stays single precision.",
     ["inputs", "configurations"], "all arrays, all chunkings, all argument passing styles, float32/float64",
     "Tests use one chunking and two shapes.",
     [BB, UT], [("use_map_blocks_on", UT), ("blackbody_rad2temp", BB), ("blackbody_wn_rad2temp", BB)],
     ["returned array and recorded compute events"],
     "Proved for a generic chunk of a generic chunking against an assumed contract of dask.map_blocks/xarray.")
prop("C04", "Band radiance and brightness temperature conversion follow the spectral response",
     "The radiance of a band at a brightness temperature is the integral of Planck's law weighted by the band's (selected "
     "detector's) response, divided by the integral of the response when normalised, in either wavelength or wavenumber "
     "space, for every band given by name or by wavelength. The conversion back evaluates the inverse Planck function at the "
     "band's central wavelength, and no call changes the spectral response data.",
     ["inputs", "configurations"], "all responses, temperatures, bands, detectors, wave spaces, normalisation options",
     "Tests use three instruments' canned responses and a few temperatures.",
     [RT], [("RadTbConverter.tb2radiance", RT), ("RadTbConverter.radiance2tb", RT)],
     ["tb2radiance() result dictionary", "radiance2tb()"],
     "Proved for symbolic responses of any length; the trapezoid rule is an uninterpreted functional with congruence, "
     "reversal, positivity and linearity lemmas; the response container enters through the contract proved in C12/C18.")
prop("C05", "Look-up table radiance conversion picks the table entry of the temperature",
     "A generated table holds, from 150 K up to (not including) 360 K in steps of the converter's temperature resolution, exactly the band radiance of that temperature; converting "
     "with a table returns, for every temperature, the entry of the temperature truncated to the table resolution, with "
     "temperatures outside the table using the first or last entry. Saving and re-reading a table changes nothing.",
     ["inputs", "histories"], "all temperatures, shapes, tables and save/read histories",
     "Tests exercise one table and a few temperatures inside it.",
     [RT], [("RadTbConverter.make_tb2rad_lut", RT), ("RadTbConverter.read_tb2rad_lut", RT),
            ("RadTbConverter._get_rad_from_lut / tb2radiance(lut=...)", RT)],
     ["returned table", "tb2radiance(..., lut=...)"], "Proved for all tables and temperatures; numpy.load/savez contracts "
     "assumed (round trip of named arrays).")
prop("C06", "SEVIRI radiance conversion uses the published non-linear regression",
     "For every SEVIRI infrared band and platform with published coefficients the conversions use nu_c, alpha and beta of "
     "exactly that platform and band: radiance of temperature is Planck's law at nu_c of alpha*T+beta, temperature of "
     "radiance is its exact inverse, in SI wavenumber units. Conversion through a look-up table or to band-integrated radiance is refused.",
     ["inputs", "configurations"], "all platforms, bands and aliases, all temperatures and radiances",
     "Tests check one platform and four values.",
     [RT], [("SeviriRadTbConverter.tb2radiance", RT), ("SeviriRadTbConverter.radiance2tb", RT), ("NU_C/ALPHA/BETA", RT)],
     ["tb2radiance()", "radiance2tb()"], "Proved over the reals for every table entry; coefficients compared with an "
     "independent transcription of the EUMETSAT table.")
prop("C07", "3.x micron reflectance is the solar part of the signal, masked where undefined",
     "For every pixel the reflectance is (measured minus thermal radiance) over (incoming solar minus thermal radiance), with the sun zenith angle "
     "used for the illumination limited to 0..the configured threshold. It is missing exactly where an input is missing, the "
     "denominator is below the tolerance, the sun zenith is negative or beyond the masking limit; each pixel depends only on "
     "its own inputs, and plain, chunked, masked or scalar inputs agree (missing and masked pixels alike). When no solar flux is given it is "
     "the in-band flux of the calculator's own band and detector.",
     ["inputs", "configurations"], "all sun zenith angles, temperatures, CO2 temperatures, thresholds, solar fluxes, array kinds",
     "Tests cover a few hand-made pixels with canned responses.",
     [NIR], [("Calculator.reflectance_from_tbs", NIR), ("Calculator.derive_rad39_corr", NIR)],
     ["reflectance_from_tbs()"], "Proved for all pixels, shapes and responses over the reals; response container and "
     "solar spectrum enter through their contracts.")
prop("C08", "Emissive part and its temperature are consistent with the reflectance",
     "After a reflectance computation the thermal part of the 3.x micron radiance equals (1 - reflectance) times the black body "
     "radiance at the window temperature, and its brightness temperature is the band inversion of that radiance; where no "
     "reflectance could be derived the measured radiance stands in for it. Calling in any order never returns "
     "results of an earlier scene.",
     ["inputs", "histories"], "all pixels, all call histories of one calculator",
     "Tests look at two pixels after one call.",
     [NIR], [("Calculator.emissive_part_3x", NIR)], ["emissive_part_3x()"],
     "Proved for all pixels and two-call histories.")
prop("C09", "CO2 correction is used exactly when a 13.4 micron temperature is given",
     "Reflectances computed with a 13.4 micron temperature use the Rosenfeld CO2 correction of the window temperature, those "
     "without use none, independently of any earlier call on the same calculator. The correction factor is "
     "((T11 - 0.25 (T11 - T13.4))/T11)^4 pointwise.",
     ["inputs", "histories"], "all temperatures and all call sequences of one calculator",
     "Tests compute each variant once on fresh objects.",
     [NIR], [("Calculator.derive_rad39_corr", NIR), ("Calculator.reflectance_from_tbs", NIR)],
     ["reflectance_from_tbs()", "derive_rad39_corr()"], "Proved for all inputs and histories with/without the correction.")
prop("C10", "In-band solar flux and irradiance integrate spectrum times response",
     "The in-band solar flux is the trapezoid integral, over the band's wavelength (wavenumber) interval at the object's "
     "resolution, of the interpolated solar spectrum times the interpolated response of the selected detector; the irradiance is that "
     "divided by the integral of the response. The resolution is the requested one, 0.005 micron (2 cm-1) by default, and resampling the "
     "spectrum evaluates its interpolation on the regular grid of that resolution over the requested interval, by default the whole spectrum. Earlier calls for other bands never influence a result and inputs are unchanged.",
     ["inputs", "histories", "configurations"], "all spectra, responses, resolutions, detectors, scales, call histories",
     "Tests compare one canned band with stored numbers.",
     [SOL], [("SolarIrradianceSpectrum._band_calculations", SOL), ("SolarIrradianceSpectrum.interpolate", SOL)],
     ["inband_solarflux()", "inband_solarirradiance()"], "Proved for all spectra and responses with the spline as an "
     "uninterpreted function of its nodes.")
prop("C11", "Solar spectrum loading and conversion conserve irradiance",
     "Loading a solar spectrum keeps the file's wavelengths and irradiances in order; converting to wavenumber reverses the order, turns each "
     "wavelength into its wavenumber and rescales the irradiance so that the energy per interval is conserved. The solar constant is the "
     "integral of the loaded spectrum.",
     ["inputs", "configurations"], "all spectra and both wave spaces",
     "Tests load one data file.", [SOL],
     [("SolarIrradianceSpectrum._load", SOL), ("SolarIrradianceSpectrum.convert2wavenumber", SOL),
      ("SolarIrradianceSpectrum.solar_constant", SOL)], ["object attributes", "solar_constant()"],
     "Proved for all spectra; numpy.genfromtxt contract assumed.")
prop("C12", "Wavelength to wavenumber conversion of spectral responses is exact and complete",
     "Converting spectral responses to wavenumber space keeps every band and detector, gives for each sample the wavenumber "
     "10^4/wavelength paired with the response (or each of several named responses) of that same sample, in increasing wavenumber order, reports unit cm-1 and SI scale 100, and "
     "passes on a copy of data already in wavenumber space. The source data are not modified by the standalone conversion; the "
     "reader's own conversion updates all bands consistently once and refuses a second time.",
     ["inputs", "histories"], "any number of bands and detectors, any sample count, any order of fields, repeated conversion",
     "Tests convert one band of one detector.", [UT, RR],
     [("convert2wavenumber", UT), ("RelativeSpectralResponse.convert", RR)],
     ["returned dictionaries", "rsr attribute after convert()"],
     "Proved with invariants over an unbounded number of bands and detectors and any sample count.")
prop("C13", "Central wave is the response-weighted mean position",
     "The central wavelength (wavenumber) of a response is the weighted mean of the positions with weight response times the "
     "optional weight; it lies within the sampled interval whenever the weights are non-negative with positive integral, does not change when the "
     "response is multiplied by a positive constant, and inputs are not modified.",
     ["inputs"], "all sampled responses and weights", "Tests check three numbers.", [UT],
     [("get_central_wave", UT)], ["get_central_wave()"], "Proved from trapezoid lemmas (congruence, linearity, positivity).")
prop("C14", "Band lookup by wavelength returns exactly the bands within reach",
     "For a requested wavelength the lookup returns the (instrument-specific, else generic) standard name of the one band whose first detector's central "
     "wavelength lies strictly within the tolerance (and 2 microns); nothing when there is none; with several it fails unless multiple "
     "bands are allowed, in which case all of them are returned in band order.",
     ["inputs"], "any number of bands, any central wavelengths, tolerances, instruments",
     "Tests query a few wavelengths of one instrument.", [UT, RR],
     [("get_bandname_from_wavelength", UT), ("RelativeSpectralResponse.get_bandname_from_wavelength", RR)],
     ["returned name(s) or exception"], "Proved with a loop invariant over an unbounded number of bands.")
prop("C15", "sort_data yields strictly increasing positions with their own values",
     "Sorting response data returns strictly increasing positions containing every distinct input position exactly once, and each "
     "returned value is the value some input sample had at that position; the inputs are not modified.",
     ["inputs"], "all array lengths, orders and duplicates", "One eight-element example is tested.", [UT],
     [("sort_data", UT)], ["returned pair"], "Proved for all lengths; numpy.argsort contract assumed.")
prop("C16", "Band names resolve directly first, then by instrument alias, then generically",
     "Looking up a band in a response container returns the entry of that exact name if present, otherwise the entry of the "
     "instrument's alias, otherwise (only when the instrument defines no alias) the generic alias, and otherwise fails with a key error; get returns the "
     "default exactly where indexing fails. Lookups never change the container.",
     ["inputs"], "all instruments, keys and container contents", "Tests look up a few names.", [RR],
     [("RSRDict.__getitem__", RR), ("RSRDict.get", RR)], ["container lookups"],
     "Proved for arbitrary keys, contents and alias tables.")
prop("C17", "Instrument names are normalised against the platform",
     "For every platform and instrument name, the normalised reader name is the given instrument's (lower case, without slash and dash) when it is one of the "
     "platform's instruments in slash or dash spelling or the platform is unknown, and otherwise the platform's first listed instrument. The "
     "atmospheric correction keeps the sensor if it matches, replaces a wrong one by the platform's only instrument, and refuses a wrong one on a platform "
     "with several.",
     ["inputs"], "all platform and instrument strings", "Tests try a few names.", [UT, RAY],
     [("check_and_adjust_instrument_name", UT), ("are_instruments_identical", UT), ("normalize_sensor", RAY)],
     ["returned names"], "Proved for arbitrary strings over the real platform table; string case/replace operations symbolic.")
prop("C18", "Spectral response files are read completely and without mixing detectors",
     "Reading a response file yields every band and every detector listed in it, each with its own response, its wavelengths in microns and "
     "its central wavelength, falling back to band-level data where a detector has none of its own, whatever was done with earlier readings of the file; a band's response integrals are those of each detector's own samples. A file is located from platform and normalised "
     "instrument (or taken as given, never both), and a missing one fails with a file-not-found error.",
     ["inputs", "configurations"], "any number of bands and detectors, any data, all name combinations",
     "Tests read mocked files of one layout.", [RR],
     [("RelativeSpectralResponse.__init__", RR), ("_load_rsr_info_from_file", RR)], ["rsr, band_names, platform_name, instrument"],
     "Proved over an abstract HDF5 tree with a symbolic number of samples; file-system and HDF5 contracts assumed.")
prop("C19", "Converted response files read back what was converted",
     "Converting raw responses writes one file per platform and instrument, under the name the reader looks for, from which the reader "
     "gets back every band (in the order given) and detector with the same responses, the same wavelengths (missing ones stay missing and do not enter the central wavelength) and the response weighted central wavelength, all in microns whatever the unit of the raw wavelengths (single precision).",
     ["inputs", "histories"], "all responses, bands, detectors, scales and platforms", "Tests only check that a file exists.",
     [UT, RR], [("convert2hdf5", UT), ("_load_rsr_info_from_file", RR)], ["file content, read back through the reader"],
     "Writer contract proved over an abstract HDF5 tree and read back through the proved reader.")
prop("C20", "Response data are downloaded exactly when outdated and allowed",
     "Response data are downloaded if and only if the local version differs from the required one, downloading is allowed by configuration and it is not a "
     "dry run; the version is the first line of the version file without surrounding blanks, a missing file counts as v0.0.0. The caller is told "
     "truthfully whether an update was needed, and reading a file given by name never downloads. The same holds "
     "for the module's check_and_download and the download_rsr program.",
     ["configurations", "histories"], "all version-file contents, configurations, destinations and dry-run settings",
     "Tests cover four combinations.", [RR, UT],
     [("_RSRDataBase.download_rsr_updates", RR), ("check_and_download", RR), ("download_rsr.py", "bin/download_rsr.py"), ("download_rsr", UT), ("RelativeSpectralResponse.__init__", RR)],
     ["network requests", "return value"], "Proved with file system and network as recorded assumed contracts.")
prop("C21", "Atmospheric tables are downloaded exactly when needed, to the right place",
     "Look-up tables of an aerosol type are downloaded only when outdated (and, when constructing a correction, when allowed by configuration), exactly once each, from "
     "that type's own address into that type's own directory, and never in a dry run. Requested types that are up to date are not fetched, "
     "whether requested from the module or by the download_atm_correction_luts program.",
     ["configurations", "histories"], "all subsets of aerosol types, version-file contents, configurations and dry-run settings",
     "Tests cover a few combinations with mocks.", [UT, RAY],
     [("download_luts", UT), ("check_and_download", RAY),
      ("download_atm_correction_luts.py", "bin/download_atm_correction_luts.py"), ("RayleighConfigBaseClass", RAY), ("Rayleigh.__init__", RAY)],
     ["network requests and target paths"], "Proved for an unbounded list of types with recorded network contracts.")
prop("C22", "An interrupted download never passes for a complete one",
     "A downloaded archive is written completely and in order, unpacked (safely filtered) into the destination only after a successful "
     "response and complete transfer, and removed afterwards. Any failure (connection, HTTP status, mid-transfer, unpacking) is raised to the caller and unpacks nothing "
     "from an incomplete transfer.",
     ["fault_sequences", "inputs"], "any number of chunks, empty chunks, failure at any step",
     "Tests mock a single successful transfer.", [UT], [("_download_tarball_and_extract", UT), ("download_rsr", UT), ("download_luts", UT)],
     ["file system and network effects, exceptions"], "Proved with a loop invariant over any number of chunks and every fault position of the "
     "assumed network/tar contracts.")
prop("C23", "Configuration comes from the named file and nested settings merge without loss",
     "The configuration is that of the given file, else of the file named by the environment (an error if that is no file), else the built-in one; user home "
     "is expanded, and the response and table directories default to the user data directory and exist afterwards. Merging nested settings keeps every "
     "existing setting that is not overridden and takes every new one, at any depth.",
     ["inputs", "configurations"], "all nested dictionaries, environments and files", "Tests load one file.",
     [CFG], [("get_config", CFG), ("recursive_dict_update", CFG)], ["returned dictionary"],
     "Merge proved by structural induction over nesting with unbounded keys; file system and YAML contracts assumed.")
prop("C24", "Rayleigh reflectance interpolates the table at the clipped viewing geometry",
     "For every pixel the atmospheric contribution is the multilinear interpolation, at (secant of sun zenith, 180 - azimuth difference, secant of satellite "
     "zenith) with zenith angles clipped to the table's range and missing angles taken as nadir, of the table of the requested aerosol and atmosphere, in percent, "
     "limited to 0..100, and faded linearly to zero where the red band is between 20 and 100. Chunked, plain and single/double precision inputs agree and keep kind, shape and precision.",
     ["inputs", "configurations"], "all angles, tables, red bands, chunkings and dtypes", "Tests compare stored numbers for one fake table.",
     [RAY], [("Rayleigh.get_reflectance", RAY), ("Rayleigh._interp_rayleigh_refl_by_angles", RAY)], ["get_reflectance()"],
     "Proved for all pixels and tables; the multilinear interpolator and dask.map_blocks enter through assumed contracts.")
prop("C25", "Rayleigh tables are interpolated linearly in wavelength, zero outside",
     "The table used for a band is the linear interpolation in wavelength between the two neighbouring table wavelengths at the band's effective "
     "wavelength (response weighted with wavelength^-4, or the wavelength given); at or outside the table's range the contribution is zero everywhere (missing where the red band given is missing), with the "
     "input's shape, kind and precision. A missing table file or missing spectral response is an error.",
     ["inputs", "configurations"], "all wavelengths, tables, bands and array kinds", "Tests use three wavelengths.",
     [RAY], [("_get_wavelength_adjusted_lut_rayleigh_reflectance", RAY), ("_get_effective_wavelength_and_band_name", RAY)],
     ["get_reflectance()"], "Proved for all tables with increasing wavelengths.")
prop("C26", "High-zenith reduction scales the correction linearly between its limits",
     "The reduction leaves the Rayleigh reflectance unchanged below the threshold angle, scales it by 1 - strength*(zenith - threshold)/(max - threshold) above, "
     "limits the factor to 0..1, and acts pixel by pixel without modifying inputs.",
     ["inputs"], "all angles, thresholds, strengths and array kinds", "Tests compare a few stored pixels.",
     [RAY], [("Rayleigh.reduce_rayleigh_highzenith", RAY)], ["returned array"], "Proved for all inputs over the reals.")
prop("C27", "Infrared limb correction is pointwise and restricted to its angle range",
     "The limb correction adds to each valid pixel the nadir term at zenith angle 0, the temperature times angle dependent term for angles in (0, 90), and nothing elsewhere; "
     "masked pixels stay masked, input data are not modified, and masked, plain (two-dimensional) and chunked inputs agree (chunked: missing pixels are NaN).",
     ["inputs"], "all temperatures, angles, shapes, masks and array kinds", "Tests compare one stored array.",
     [IR], [("viewzen_corr", IR), ("AtmosphericalCorrection.get_correction", IR)], ["returned array"],
     "Proved for all pixels over the reals with pow axiomatised.")
prop("C28", "Testing helpers restore the environment and forbid downloads however they end",
     "Inside a testing helper the configuration is the overriding one and downloads are blocked where promised; when it ends, normally or by any exception, at any nesting depth, the "
     "configuration environment is exactly what it was before, and temporary files are gone.",
     ["histories", "fault_sequences"], "all nestings, prior environments and exceptions in the body", "Tests end normally, one level deep.",
     [TST], [("override_config", TST), ("forbid_pyspectral_downloads", TST), ("mock_pyspectral_downloads", TST)],
     ["os.environ, raised exceptions, files"], "Proved over a recorded environment and file system with an arbitrary exception in the body.")
prop("C29", "Band width measures pick the outermost samples reaching their threshold",
     "The full width at half maximum is the distance between the first and last sample whose (peak-normalised) response reaches one half, failing when fewer than two do; the wave range "
     "reports the first and last wavelength with response above the threshold around the central wavelength; the energy bounds are the first wavelength reaching and the last not exceeding the "
     "given percentage of cumulative response.",
     ["inputs"], "all sampled responses and thresholds", "Tests check a few canned bands.",
     [UT], [("get_fullwidth_halfmax", UT), ("get_wave_range", UT), ("get_bounds_integrated_energy", UT)],
     ["returned values"], "Proved for all lengths and responses.")
prop("C30", "Text from files becomes the same text",
     "Byte strings, text, numpy scalars and one-element arrays of text, bytes or objects holding them, all convert to the same Python text (UTF-8), and anything else, in "
     "particular bytes that are not UTF-8 and arrays with several elements, is refused with a value error.",
     ["inputs"], "all values of the listed kinds", "Tests convert three values.",
     [UT], [("convert2str", UT), ("np2str", UT), ("bytes2string", UT)], ["returned text or exception"],
     "Case analysis proved over value kinds; decoding is an uninterpreted function.")
prop("C31", "Calculators exist only for 3.x micron bands, each with its own table cache",
     "A reflectance calculator can be built exactly for a band, given by name or wavelength, when that band's central wavelength (or the wavelength given) lies within 3.5 to 3.95 microns; others are refused. The cached "
     "look-up table file belongs to one platform, instrument, band and detector, is reused unchanged if present and created once otherwise.",
     ["inputs", "histories", "configurations"], "all platforms, instruments, bands, detectors, central wavelengths and cache contents", "Tests build three calculators.",
     [NIR], [("Calculator.__init__", NIR)], ["constructor outcome, files read and written"],
     "Proved for all names and central wavelengths with file-system contracts.")

TECH = ("contract-based deductive verification: contracts on the functions extracted from /repo on every run, "
        "obligations discharged by z3 (cvc5 second); run-time checks of the same contracts replay counterexamples")


def main():
    have = [p for p in P if os.path.exists(os.path.join(HERE, "props", p["pid"].lower() + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in have:
            assert len(p["title"]) <= 80, p["pid"]
            f.write(json.dumps(dict(
                id=p["pid"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             observe_at=p["observe"], hook_needed=None))) + "\n")
    m = dict(version=1, setup_cmd="/opt/venv/bin/python tools/selftest.py",
             checks=[dict(property=p["pid"], quick_cmd="/opt/venv/bin/python check.py " + p["pid"],
                          thorough_cmd="VERIF_TIER=thorough /opt/venv/bin/python check.py " + p["pid"],
                          technique=TECH, level="proof", level_note=p["level_note"]) for p in have],
             not_applicable=[],
             notes="No hooks in /repo: the checks read the source of /repo's working tree on every run.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
