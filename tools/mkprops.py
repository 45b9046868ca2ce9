import json
P=[]
def p(id,title,statement,over,q,why,files,mech,obs,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,
      state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],hook_needed=None)))
G="src/barotropic/grid.py";S="src/barotropic/state.py";M="src/barotropic/model.py";R="src/barotropic/rhs.py";D="src/barotropic/diagnostics.py";I="src/barotropic/init.py";IO="src/barotropic/io.py";PL="src/barotropic/plot.py";F="src/barotropic/formatting.py"
p("C01","Grid coordinates, spacing, Coriolis fields and grid identity",
"For every resolution 180/N degrees, radius, rotation rate and truncation, a Grid has 2N longitudes i*360/(2N) starting at 0 without a repeated 360 and N+1 latitudes 90-j*180/N from pole to pole, with all derived attributes (lon2/lat2, lam/phi in radians and their 2D versions, dlon/dlat/dlam/dphi, fcor=2*omega*sin(lat), fcor2, shape, circumference) agreeing with them. Two grids compare equal exactly when shape and truncation agree and radius and rotation rate agree to within relative rounding, and equal grids always have equal hashes.",
["inputs","configurations"],"all N>=1 resolutions, all positive radii, all rotation rates, all truncations, all latitudes given to circumference/coriolis, all pairs of grids",
"tests construct a handful of grids at round resolutions and compare one array at a time; grid identity is only checked for a few pairs",
[G],[("coordinate construction","Grid.__init__"),("identity","Grid.__eq__, Grid.__hash__"),("Coriolis and circumference","Grid.coriolis, Grid.circumference")],["Grid attributes","grid == other, hash(grid)"])
p("C02","Gridpoint areas tile the sphere; area-weighted means use them",
"Every gridpoint area is r^2*dlam*(sin(upper)-sin(lower)) for the latitude band bounded by the midpoints to its neighbours (pole points reach exactly to the pole), so all areas are positive and the areas of all gridpoints add up to 4*pi*r^2. Grid.mean of any field is the area-weighted mean over the requested axis (whole field, meridional, zonal), over the whole grid or over any region, whether the field was already extracted or not (fields of the grid's own shape count as not extracted), and GridRegion.mean agrees; fields of the wrong shape and unknown axes are rejected.",
["inputs","configurations"],"all grids, all fields, all regions including ones across 0 degrees, every spelling of axis",
"tests check the total area for a few resolutions and means of a few constant or simple fields",
[G],[("area formula","Grid.gridpoint_area"),("mean","Grid.mean, GridRegion.mean, GridRegion.gridpoint_area")],["Grid.gridpoint_area","Grid.mean","GridRegion.mean"])
p("C03","Surface and meridional quadrature",
"quad_meridional with boxcount is the gridpoint-area sum over the points of the domain z>=0 (everything if z is omitted) divided by r*dlam; with sptrapz it is, column by column, the exact integral of r*cos(phi) times the piecewise-linear interpolant of y over the part of each meridional segment where the piecewise-linear interpolant of z is nonnegative. quad is r*dlam times the sum of quad_meridional over the given longitudes, sector-width inputs are accepted, the inputs are left unmodified, and wrong latitude counts or unknown schemes are rejected.",
["inputs"],"all grids, all real fields y and z (any sign pattern, zeros included), all sector widths, both schemes",
"tests integrate a few smooth fields and compare to analytic values within tolerance; the sign-pattern case analysis of the domain boundary is barely sampled",
[G],[("sptrapz/boxcount","Grid.quad_meridional"),("surface integral","Grid.quad")],["Grid.quad","Grid.quad_meridional"])
p("C04","Region selection and extraction",
"grid.region[lon,lat] selects exactly the gridpoints whose coordinates lie in the closed requested ranges: latitude ranges in either order (\"N\"/\"S\" and open ends included), longitude ranges wrapping across 0 degrees when stop<start, in west-to-east order, single numbers only when they are on the grid; malformed selections raise IndexError. extract, shape, lat, lon, mask and lon_mono all describe that same selection (mask is true exactly there, lon_mono is increasing and equals lon modulo 360), extraction never changes grid or input, and fields that do not match the grid raise ValueError.",
["inputs","configurations"],"all grids, all start/stop pairs (None, any number in 0..360 for longitude), all fields",
"tests check a few regions on one or two grids, mostly mid-domain ranges aligned with gridpoints",
[G,F],[("index computation","GridRegionIndexer._get_lat_indices, _get_lon_indices"),("extraction","GridRegion._extract_one, extract, mask, lon_mono")],["Grid.region[...]","GridRegion.extract/mask/lat/lon/lon_mono/shape/repr"])
p("C05","Meridional derivative is exact to its order",
"derivative_meridional with order 2 (order 4, the default) returns at every latitude it evaluates the exact derivative with respect to latitude in radians, oriented north-positive, whenever each meridional column is a polynomial of degree at most 2 (at most 4) in latitude, and is linear in the field and acts on each longitude separately. For 1D profiles the two pole values are 0, for 2D fields they are evaluated one-sided, the input is left unmodified, and grids with too few latitudes or other orders are rejected.",
["inputs"],"all grids with enough latitudes, all 1D/2D fields, both orders",
"tests compare against the analytic derivative of one or two profiles within a tolerance that a wrong edge coefficient can hide in",
[G],[("finite differences","Grid.derivative_meridional")],["Grid.derivative_meridional"])
p("C06","Spectral operators: transforms, Laplace, Poisson, diffusion, wind",
"The spectral Laplacian multiplies each harmonic by -n(n+1)/r^2; solve_poisson_spectral returns f with (Laplacian - op_add) f = rhs in every harmonic except a singular n=0 one, which is set to 0; solve_diffusion_spectral returns one implicit Euler step f/(1+dt*coeff*(n(n+1)/r^2)^order). The gridded versions, gradient, vorticity, divergence, vorticity_divergence and wind are those same operators between the grid's own transforms at the grid's truncation, in (zonal, meridional) and (vorticity, divergence) order and for gridded or spectral wind inputs alike, and none of them modifies its input.",
["inputs","configurations"],"all grids, all spectral coefficients and fields, all op_add/coeff/dt/order values",
"tests check one zonal-harmonic field for Laplace/Poisson/diffusion and round-trip one vorticity field",
[G],[("eigenvalues","Grid.__init__ laplacian eigenvalues"),("solvers","Grid.laplace*, solve_poisson*, solve_diffusion*"),("wind","Grid.wind, vorticity*, divergence*, gradient")],["Grid spectral and gridded operators"])
p("C07","State fields are mutually consistent",
"Whichever constructor made a State (PV, spectral PV, vorticity, wind), its fields all derive from its one PV field: pv (=avo) is the gridded spectral PV, vorticity (=vo) is pv minus the planetary vorticity in grid and spectral space, u and v are the divergence-free wind of that vorticity, streamfunction inverts it, energy, enstrophy and eddy enstrophy are 0.5(u^2+v^2), 0.5 q^2 and 0.5(q-zonal mean q)^2, and pv_flux_spectral is the divergence of (q u, q v). from_vorticity and from_wind add the planetary vorticity exactly once, add_wind adds winds and add_vorticity adds relative vorticity without doubling the planetary part, each at the unchanged time and grid, and mismatched grids or shapes are rejected.",
["inputs"],"all grids, all PV/vorticity/wind fields, all State pairs",
"tests check two or three initial states; cross-field identities for arbitrary fields are never asserted",
[S],[("constructors","State.__init__, from_wind, from_vorticity"),("accessors","State.pv ... energy"),("arithmetic","State.add_wind, add_vorticity")],["State attributes and constructors"])
p("C08","States are immutable and accessors are history independent",
"Every State accessor and diagnostic returns the same value no matter which other accessors, in which order and how often, were used before it, and memoised values are those of that State alone. No library operation (accessors, diagnostics, arithmetic, forcing evaluation, model step, plotting-data preparation, export) modifies a State's fields or time, a Grid's arrays, or an array passed in by the caller.",
["histories","inputs"],"all sequences of accessor and library calls on a State, all fields",
"a test run fixes one access order; in-place mutation of memoised or caller-owned arrays shows only for particular later reads",
[S,G,D,M,R],[("memoisation","_cached_property, State._invert_pv and None-checked accessors"),("in-place writes","index assignments and augmented assignments in grid/diagnostics/model")],["State accessors after any history","arrays owned by the caller, State and Grid"],
[("_pv,_u,_v,_streamfunction,_falwa,_pv_zonalized","lazily evaluated memoised fields","State")])
p("C09","Model tendency, Euler step, filtered leapfrog step and diffusion",
"The PV tendency is minus the spectral divergence of the PV flux plus the spectral transform of the forcing (if any); an Euler step returns diffuse(q + dt*tendency) at time t+dt, and a leapfrog step returns diffuse(q_old + 2*dt*tendency(q_now)) over 2*dt at t_now+dt together with the Robert-Asselin filtered current state q_now + a*(q_old - 2 q_now + q_new) at the unchanged time. The diffusion is one implicit step with the model's order and coefficient applied to the deviation from diffusion_bg (if given), time steps may be numbers of seconds or timedeltas, and the states passed in are left unmodified; in consequence an unforced model never changes the global-mean PV (the n=0 harmonic) when no background is given.",
["inputs","configurations"],"all states, forcings, time steps, filter parameters, diffusion orders/coefficients/backgrounds",
"tests integrate a couple of standard runs and look at rough magnitudes only",
[M,G],[("stepping","BarotropicModel.euler, leapfrog"),("tendency","_pv_tendency_spectral"),("diffusion","_apply_diffusion")],["BarotropicModel.euler/leapfrog outputs"])
p("C10","Model run: where it stops and what it saves",
"run starts with one Euler step and then applies leapfrog steps, and returns the filtered state at the first time level of t0, t0+dt, t0+2dt, ... that is not before tend (the initial state itself if tend is not after it). The saved states are a StateList containing the initial state and then, in order, the filtered states at which the time since the start reaches each successive multiple of save_every (at most one per step, none if save_every is 0), independent of the numeric start time; times may be numbers or datetimes with timedelta steps.",
["inputs","schedules"],"all start times, dt>0, tend, save_every>=0, all numbers of steps",
"tests run fixed schedules starting at time 0; no bound on number of steps or non-commensurable intervals is explored",
[M],[("integration loop","BarotropicModel.run")],["BarotropicModel.run return values","State.run, StateList.run"])
p("C11","Forcing algebra and the built-in forcing terms",
"Any sum or product expression built from forcing terms evaluates, for every state, to the sum or product of its terms' values. TimedOffSwitch is 1 up to and including tend and 0 after; LinearRelaxation is rate*(reference - pv); Orography terms evaluate -f/H*(u.grad h) with the selected wind (actual, zonal-mean zonal, or solid-body), actual or fixed f, and the orography of the grid of the state being evaluated, even after other grids were used; Orography interpolates linearly in latitude and longitude, GaussianMountain and ZonalSineMountains have the documented shapes.",
["inputs","histories"],"all expressions of terms, all states, all grids in any order of use, all parameters",
"tests evaluate each term on one grid and one state; caching across grids and nested expressions are not exercised",
[R],[("operators","RHS, _RHSSum, _RHSProduct"),("terms","TimedOffSwitch, LinearRelaxation, Orography, GaussianMountain, ZonalSineMountains"),("cache","Orography._orography_gradient lru_cache")],["rhs(state)"])
p("C12","Equivalent latitude, zonalisation and meridional interpolation",
"equivalent_latitude(A), for scalars and arrays, is the latitude north of which the sphere has area A, clipped to the poles for areas outside 0..4 pi r^2. zonalize returns for each contour value (given, or the documented sine-spaced default set between field minimum and maximum) the equivalent latitude of the area where the field is at least that value (scaled to the full globe for sector fields), or the contour values interpolated in latitude onto the grid with the field maximum at the North Pole and minimum at the South Pole; interpolation at 90 and -90 returns the given pole values for 1D profiles and 2D fields.",
["inputs"],"all fields, all contour sets and counts, both quadratures, sectors of any width, all areas including out of range",
"tests zonalise a few fields and compare profiles within tolerance",
[G],[("equivalent latitude","Grid.equivalent_latitude"),("zonalisation","Grid.zonalize"),("interpolation","Grid.interp1d_meridional, interpolate_meridional")],["Grid.equivalent_latitude/zonalize/interpolate_meridional","State.pv_zonalized"])
p("C13","Finite-amplitude wave activity (FALWA and FAWA)",
"falwa is, for every contour Q with equivalent latitude phi_Q, the difference of the meridional integrals of (q-Q) over {q>=Q} and over {lat>=phi_Q}, divided by cos(phi_Q), at every longitude; with boxcount quadrature it is evaluated at the latitude midpoints using interpolated contour values. fawa is its zonal mean; interpolated results are on the grid latitudes with zero at both poles, and State.falwa and State.fawa are these diagnostics of the State's own PV.",
["inputs"],"all PV fields, levels, both quadratures, interpolated or not, State or array input",
"tests compare against one reference field or only check shapes",
[D,S],[("wave activity","diagnostics.falwa, diagnostics.fawa"),("shortcuts","State.falwa, State.fawa")],["diagnostics.falwa/fawa","State.falwa/fawa"])
p("C14","Window filters",
"get_filter_window returns the named symmetric window with an odd number of gridpoints, the requested width in degrees rounded to gridpoints and up to the next odd number, normalised to sum 1. filter_meridional convolves every meridional column with the (given or constructed) window with reflecting boundaries at the poles, filter_zonal every latitude circle with periodic boundary, for 1D and 2D input, mixing no other dimension, leaving the input unmodified and rejecting inputs that do not match the grid.",
["inputs"],"all windows and widths, all fields, all grids",
"tests filter a constant and one impulse field",
[G],[("window","Grid.get_filter_window"),("filters","Grid.filter_meridional, Grid.filter_zonal")],["Grid.get_filter_window/filter_meridional/filter_zonal"])
p("C15","StateList broadcasting",
"A StateList of any length is an immutable sequence of exactly the given States in order, all on equal grids (the common grid is its grid; anything else is rejected), and concatenation, iteration, indexing, copying and pickling preserve that. For every State attribute or instance method (other than run), and for map, the result's i-th entry is that attribute, or the result of that call with the given arguments, for the i-th State, with arrays and numbers stacked into an array along a new leading dimension, States into a StateList and anything else into a list; run integrates each State separately and returns the final states and all outputs in order.",
["inputs"],"all list lengths, all attributes and callables, all argument lists",
"tests use lists of two or three states and a few attributes",
[S],[("sequence","StateList.__init__/__getitem__/__add__"),("broadcast","StateList.__getattr__, map, _convert_sequence"),("run","StateList.run")],["StateList"])
p("C16","Dataset export and import round trip",
"as_dataset puts for every requested field (name, list, mapping to attribute or callable) the value of each State, in order, at that State's index along the concatenation dimension, with the grid's latitudes and longitudes and the States' times as coordinates (numeric times labelled with the unit s), and refuses fields with dimensions other than latitude and longitude. from_dataset builds one State per lon-lat slice in order, from u,v before vo before avo, each with its own time (or time_fill) and its own matching fields, honouring name overrides and grid options, and rejects coordinates that are not a full regular global grid from 90N southward and 0E eastward; exporting along the default time dimension and re-importing therefore reproduces times, grid and fields.",
["inputs"],"all numbers of states, all fields and name maps, all datasets with any extra dimensions and coordinate values",
"tests round-trip one or two small lists",
[IO],[("export","io.as_dataset"),("import","io.from_dataset, _select_var")],["io.as_dataset","io.from_dataset"])
p("C17","Stationary wavenumber and waveguide extraction",
"stationary_wavenumber returns Ks^2 = r*cos(phi)^2*(d(zonal-mean PV)/dphi)/(zonal-mean u) at every latitude, infinite with the sign of the PV gradient (0 for zero gradient) where |u| is below the threshold, and the complex and real variants are its square root and Re-Im of it; without PV the PV is derived from u. extract_ks_waveguides returns the latitude intervals, from north to south, in which linearly interpolated Ks exceeds k: alternating boundaries at linear crossings (at the finite neighbour where one Ks is infinite), starting or ending at a pole where Ks there is at least k, never NaN.",
["inputs"],"all wind and PV profiles (including infinite Ks), all k, all profile lengths",
"tests extract waveguides from one idealised jet",
[D],[("Ks","diagnostics.stationary_wavenumber"),("waveguides","diagnostics.extract_ks_waveguides")],["diagnostics.stationary_wavenumber","diagnostics.extract_ks_waveguides","State shortcuts"])
p("C18","Wavenumber diagnostics, envelope and wavenumber-dependent filter",
"dominant_wavenumber_fourier is, per latitude, the wavenumber of maximum zonal Fourier power within the requested range (then smoothed as requested); envelope_hilbert is the modulus of the analytic signal of the field restricted to the inclusive wavenumber range, for any number of longitudes; dominant_wavenumber_wavelet is the wavenumber of maximum wavelet power at each point of the periodic field. filter_by_wavenumber gives each gridpoint the normalised zonal periodic Hann smoothing whose odd width is 2*floor(nlon/k)+1 for the wavenumber k (clipped to 1..nlon/2) at that very point, for 1D and 2D wavenumbers; State.falwa_filtered and v_envelope_hilbert are these applied to the State's own fields.",
["inputs"],"all fields, all wavenumber ranges and wavenumber fields, even and odd numbers of longitudes",
"tests feed a single pure wave; off-by-one shifts in range or width can stay inside the tolerance",
[D,S],[("Fourier","diagnostics.dominant_wavenumber_fourier, _restrict_fourier_zonal, envelope_hilbert"),("wavelet","diagnostics.dominant_wavenumber_wavelet"),("filter","diagnostics.filter_by_wavenumber")],["diagnostics functions","State.falwa_filtered, v_envelope_hilbert"])
p("C19","Initial conditions",
"Each initial condition returns a State on the given grid and time whose wind or PV is the documented profile at every gridpoint, zonally uniform: motionless has the planetary vorticity as PV, zonally_symmetric the given u or PV profile at each latitude (exactly one must be given and must have nlat values), solid_body_rotation amplitude*cos(phi), held_1985 its A,B,C profile. gaussian_jet is the Gaussian minus the straight line in latitude through its two pole values, hence zero wind at both poles.",
["inputs","configurations"],"all grids, amplitudes, centres, widths, profiles and times",
"tests instantiate each with default parameters and check a few values",
[I],[("profiles","init.motionless, zonally_symmetric, solid_body_rotation, gaussian_jet, held_1985")],["init functions"])
p("C20","Plot data and labels refer to the right coordinates",
"roll_lon shifts fields so that the gridpoint nearest to the requested meridian (periodically) is in the middle column, and the longitude labels it configures name, at every tick, the true longitude of the data drawn there. The presets draw every field - filled contours, contours and wind vectors alike - with the same shift, symmetric_levels returns n equally spaced levels symmetric about zero spanning the data or the given extent ([-1, 1] if the data are zero everywhere), reduce_vectors subsamples all four arrays at the same points, and hovmoellerify stacks profiles in state order with times and latitudes or longitudes on the right axes. State.plot draws the same presets for that State.",
["inputs","configurations"],"all grids, all centre longitudes, all fields, all state sequences",
"image output is not compared; tests at most call the presets with defaults",
[PL],[("rolling","plot.roll_lon, configure_lon_x"),("presets","plot.summary, wave_activity, rwp_diagnostics, waveguides"),("data preparation","plot.symmetric_levels, reduce_vectors, hovmoellerify")],["plot functions' outputs and arguments passed to matplotlib"])
p("C21","Conversion to and from falwa barotropic fields",
"as_hn2016 hands falwa the State's PV with latitudes increasing from the South Pole and the grid longitudes, each PV value staying at its own latitude and longitude. from_hn2016 is its inverse: it yields a State with the given time on the given grid, or on a new grid of matching resolution, whose PV at each point is the falwa field's value there (within the grid's spectral truncation, as for any State made from gridded PV), and rejects fields whose size does not match the grid.",
["inputs"],"all states, all grids, all falwa fields",
"tests round-trip one field",
[S],[("conversion","State.as_hn2016, State.from_hn2016")],["State.as_hn2016","State.from_hn2016"])
p("C22","Long integrations are numerically stable and accurate",
"Integrating any resolved smooth flow with a CFL-compatible time step stays bounded, converges to the continuous barotropic vorticity equation as resolution and time step are refined, and conserves energy and enstrophy up to diffusion and filter losses.",
["inputs","histories"],"all resolved initial states, all stable time steps, all integration lengths",
"tests integrate one or two cases for a short time",
[M,G],[("time stepping","BarotropicModel.run")],["BarotropicModel.run"])
p("C23","Texts shown for times, grids, regions, states, models and forcings",
"A numeric time is shown in seconds up to 120 s, in minutes up to 120 min, in hours up to 240 h and in days above, rounded to one decimal, and a datetime in ISO format. The text of a Grid names its own shape, resolution, radius, rotation rate, truncation and Legendre mode; that of a region its limits from the southern to the northern and from the western to the eastern end, its sizes, its grid, and a map whose cells (20 by 10 degrees) are marked exactly where the region has gridpoints, also for regions across 0 degrees and empty regions; a State its time, a StateList its length, a model its diffusion coefficient, the exponent 2*order and its forcing, and forcing expressions their terms in order with every sum and product in parentheses.",
["inputs"],"all times, grids, regions (also empty ones), states, models and forcing expressions",
"no test looks at these texts",
[G,S,M,R,"src/barotropic/formatting.py"],[("texts","formatting.format_time, grid_repr, grid_region_repr, state_repr, barotropic_model_repr"),("expressions","_RHSSum.__repr__, _RHSProduct.__repr__")],["repr() of the library's objects, plot titles"])
open('/verif/properties.jsonl','w').write("\n".join(json.dumps(x) for x in P)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch); assert len(x['title'])<=80
print(len(P))
