"""property id -> statement, spec files, level, notes.

tools/mkmeta.py writes properties.jsonl and MANIFEST.json from this file."""
PROPS = {}
NOT_APPLICABLE = {}
IND = ('Histories are proved by induction over the rows (a row from its '
       'inputs and the result of the row before; pvc/rows.py), with pandas '
       'rolling sums as an assumed contract. ')
HIST = ('The contracts on whole histories are executed on sampled histories '
        '(bounded, listed in the evidence under bounded_only and not counted '
        'as proved); the row-wise parts are proved.')


def P(id, title, statement, quant, why, files, mech, specs, over=('inputs',),
      level='proof', note='', **k):
    PROPS[id] = dict(title=title, statement=statement, quant=quant, why=why,
                     files=files, mech=mech, specs=list(specs) + ['interfaces'],
                     over=list(over), level=level, note=note, **k)


P('C01', 'Angle of incidence agrees with the 3-D geometry of plane and sun',
  'For every surface orientation and sun position the projection of the sun '
  'vector on the surface normal is the dot product of the two unit vectors, '
  'stays within [-1, 1], and the angle of incidence is its arccosine in '
  'degrees. Turning both azimuths by the same angle, or any azimuth by a full '
  'turn, changes nothing; a horizontal surface sees the zenith angle. The '
  'beam component is the direct normal irradiance times that projection, '
  'never negative, and zero when the sun is behind the plane.',
  'all real tilts, azimuths, zeniths, DNI values, NaN, scalars, arrays and '
  'Series',
  'Tests fix a handful of orientations; symmetry, range and NaN behaviour '
  'must hold on the whole four-dimensional angle space.',
  ['pvlib/irradiance.py'],
  [('aoi_projection', 'irradiance.aoi_projection'), ('aoi', 'irradiance.aoi'),
   ('beam_component', 'irradiance.beam_component')], ['geom'])

P('C02', 'Plane-of-array totals are exactly the sum of their components',
  'The total plane-of-array irradiance is the sum of beam, sky-diffuse and '
  'ground-reflected parts: the global is direct plus diffuse, the diffuse is '
  'sky plus ground, the direct is the non-negative projection of DNI. The sky '
  'part is the one the selected sky model gives, the ground part follows '
  'GHI, albedo (or the albedo of the named surface) and the tilt, for every '
  'model, option and container type. A missing airmass or extraterrestrial '
  'irradiance is rejected exactly for the models that need it.',
  'all irradiance and angle values, every sky model and option, arrays, '
  'Series and scalars, rows with missing values',
  'The tests check reference numbers for a few models at a few angles; the '
  'closure must hold for every input and option combination.',
  ['pvlib/irradiance.py'],
  [('get_total_irradiance', 'irradiance.get_total_irradiance'),
   ('get_sky_diffuse', 'irradiance.get_sky_diffuse'),
   ('poa_components', 'irradiance.poa_components'),
   ('get_ground_diffuse', 'irradiance.get_ground_diffuse')], ['transpose'])

P('C03', 'Sky-diffuse models compute their published formulas everywhere',
  'Each diffuse-sky transposition model (isotropic, Klucher, Hay-Davies, '
  'Reindl, King, Perez with every coefficient set, continuous Perez-Driesse) '
  'and the PAR diffuse fraction return the value of their published formula '
  'for every input, including night, edge and missing rows. The optional '
  'components add up to the total, the total does not depend on whether '
  'components are requested, and results are not negative where the model '
  'clips them. On a horizontal surface the models reduce to the horizontal '
  'diffuse irradiance.',
  'all irradiances, angles, airmasses and extraterrestrial values in physical '
  'range, every coefficient set, missing values',
  'Reference values cover one day and one tilt; formulas have clipped and '
  'binned branches that sampled points do not reach.',
  ['pvlib/irradiance.py'],
  [('isotropic', 'irradiance.isotropic'), ('klucher', 'irradiance.klucher'),
   ('haydavies', 'irradiance.haydavies'), ('reindl', 'irradiance.reindl'),
   ('king', 'irradiance.king'), ('perez', 'irradiance.perez'),
   ('perez_driesse', 'irradiance.perez_driesse')], ['transpose'])

P('C04', 'Irradiance decompositions are closed, bounded and follow the models',
  'Each decomposition of global irradiance (Erbs, Erbs-Driesse, '
  'Orgill-Hollands, Boland, Louche, DISC, Campbell-Norman) returns the value '
  'of its published model for every input, with global equal to diffuse plus '
  'the vertical projection of direct wherever the beam is kept, no negative '
  'direct irradiance and no beam beyond the zenith limit. Clearness and '
  'clear-sky indices follow their definition and stay within their caps, the '
  'extraterrestrial irradiance follows the day of year, and deriving the '
  'missing third component keeps the three components consistent.',
  'all irradiances, zeniths, days of year, pressures, limits; arrays, '
  'scalars, Series and timestamps; missing values',
  'Tests sample a few points; the clips and limits at night, negative GHI '
  'and low sun are corner regions reached only by chance.',
  ['pvlib/irradiance.py', 'pvlib/tools.py', 'pvlib/solarposition.py',
   'pvlib/atmosphere.py'],
  [('erbs', 'irradiance.erbs'), ('disc', 'irradiance.disc'),
   ('boland', 'irradiance.boland'), ('louche', 'irradiance.louche'),
   ('erbs_driesse', 'irradiance.erbs_driesse'),
   ('complete_irradiance', 'irradiance.complete_irradiance'),
   ('clearness_index', 'irradiance.clearness_index')], ['decomp'])

P('C10', 'Cell temperature models follow their heat balance for all weather',
  'Every steady-state cell and module temperature model (SAPM, PVsyst, '
  'Faiman with and without sky loss, Ross, NOCT SAM, generic linear) returns '
  'the value of its published formula for every irradiance, air temperature '
  'and wind. A dark module sits at air temperature, light never cools, wind '
  'never heats. Parameters converted into the generic linear model and back '
  'reproduce the original model and parameters.',
  'all weather values and parameters, every option, arrays, Series and '
  'scalars, missing values',
  'Tests check one or two weather points per model; physical monotonicity '
  'and equivalence of conversions are statements over all inputs.',
  ['pvlib/temperature.py'],
  [('sapm_cell', 'temperature.sapm_cell'),
   ('pvsyst_cell', 'temperature.pvsyst_cell'),
   ('faiman', 'temperature.faiman'), ('ross', 'temperature.ross'),
   ('noct_sam', 'temperature.noct_sam'),
   ('GenericLinearModel', 'temperature.GenericLinearModel')], ['celltemp'])

P('C11', 'Inverter models respect ratings, tare and their efficiency curve',
  'The Sandia, ADR and PVWatts inverter models return the value of their '
  'published formula for all DC power, voltage and parameters. AC power never '
  'exceeds the rating; below the start-up power, or at zero voltage, the '
  'output is the night tare; PVWatts output is never negative and is zero '
  'without DC input. With several inputs the result is the power-weighted '
  'combination, equal to the single-input model for one input.',
  'all DC powers and voltages, all parameter values, arrays, Series and '
  'scalars, missing values, zero power and zero voltage',
  'Tests use one inverter and few points; clipping, start-up and division by '
  'zero corners must hold everywhere.',
  ['pvlib/inverter.py'],
  [('sandia', 'inverter.sandia'), ('sandia_multi', 'inverter.sandia_multi'),
   ('adr', 'inverter.adr'), ('pvwatts', 'inverter.pvwatts')], ['inverters'])

P('C12', 'Atmospheric quantities follow their formulas, units and inverses',
  'Pressure and altitude, relative and absolute airmass for every airmass '
  'model, precipitable water, humidity and dew point, broadband aerosol '
  'depth, Linke turbidity, Angstrom scaling and wind profile return the value '
  'of their published formula for every input. There is no airmass below the '
  'horizon, pressure falls with altitude, dew point and humidity as well as '
  'the Angstrom relations invert each other, and contradictory options are '
  'rejected.',
  'all physical inputs, every model name, arrays, Series and scalars, missing '
  'values',
  'Tests cover a few reference values; unit or exponent slips away from the '
  'sampled points and broken inverse relations pass them.',
  ['pvlib/atmosphere.py'],
  [('get_relative_airmass', 'atmosphere.get_relative_airmass'),
   ('get_absolute_airmass', 'atmosphere.get_absolute_airmass'),
   ('pres2alt', 'atmosphere.pres2alt'), ('alt2pres', 'atmosphere.alt2pres'),
   ('tdew_from_rh', 'atmosphere.tdew_from_rh'),
   ('windspeed_powerlaw', 'atmosphere.windspeed_powerlaw')], ['atmos'])

P('C07', 'Incidence-angle modifiers follow their model, range and symmetry',
  'The ASHRAE, physical (with and without coating), Martin-Ruiz, Schlick, '
  'SAPM and interpolated incidence angle modifiers and the closed-form '
  'diffuse modifiers return the value of their published formula for every '
  'angle. Modifiers are 1 at normal incidence, even in the angle, zero from '
  '90 degrees on and stay within [0, 1] where the model promises it. '
  'The hemispherical integration of a constant modifier is that constant.',
  'all incidence angles including beyond 90 degrees and negative, all '
  'parameters, arrays, Series and scalars, missing values',
  'Tests sample a few angles; refraction beyond grazing incidence, coating '
  'and clipping branches must hold everywhere.',
  ['pvlib/iam.py'],
  [('ashrae', 'iam.ashrae'), ('physical', 'iam.physical'),
   ('martin_ruiz', 'iam.martin_ruiz'), ('schlick', 'iam.schlick'),
   ('sapm', 'iam.sapm'), ('interp', 'iam.interp'),
   ('marion_integrate', 'iam.marion_integrate')], ['iams'])

P('C05', 'Trackers point at the sun within limits, by their published geometry',
  'The projected solar zenith angle, the rotation of a single-axis tracker '
  'with and without backtracking on flat and sloped ground, the resulting '
  'surface tilt and azimuth, and the axis and cross-axis tilts are the values '
  'of the published tracking geometry for every sun position and '
  'configuration. The rotation stays within the mechanical limits, tilt stays '
  'within [0, 90], the angle of incidence is that of the returned '
  'orientation, and nothing is returned while the sun is below the horizon.',
  'all sun positions, axis tilts and azimuths, ground cover ratios, slopes, '
  'limits; arrays, Series and scalars; missing values',
  'Tests check fixed cases on a coarse grid; limits, night handling and the '
  'backtracking branch must hold for all sun positions.',
  ['pvlib/tracking.py', 'pvlib/shading.py'],
  [('singleaxis', 'tracking.singleaxis'),
   ('calc_surface_orientation', 'tracking.calc_surface_orientation'),
   ('calc_axis_tilt', 'tracking.calc_axis_tilt'),
   ('calc_cross_axis_tilt', 'tracking.calc_cross_axis_tilt'),
   ('projected_solar_zenith_angle',
    'shading.projected_solar_zenith_angle')], ['track'])

P('C06', 'Row-to-row shading fractions and angles are geometric and bounded',
  'Ground and masking angles, their Passias average, the lost sky-diffuse '
  'fraction, the one-dimensional shaded fraction and the Martinez direct loss '
  'are the values of the published geometry for every array layout. '
  'Fractions stay within [0, 1], nothing is masked at the top of a row or on '
  'a horizontal row, masking is largest at the bottom, and without shade '
  'there is no loss.',
  'all tilts, rotations, ground cover ratios, positions on the row and sun '
  'positions; arrays, Series and scalars; missing values',
  'Tests check a few layouts; bounds and limits must hold over the entire '
  'layout space.',
  ['pvlib/shading.py'],
  [('masking_angle', 'shading.masking_angle'),
   ('ground_angle', 'shading.ground_angle'),
   ('masking_angle_passias', 'shading.masking_angle_passias'),
   ('sky_diffuse_passias', 'shading.sky_diffuse_passias'),
   ('shaded_fraction1d', 'shading.shaded_fraction1d'),
   ('direct_martinez', 'shading.direct_martinez')], ['track'])

P('C08', 'Single-diode solutions satisfy the single-diode equation',
  'bishop88 returns the published current, voltage, power and exactly their '
  'derivatives, with recombination and reverse breakdown. Every current or '
  'voltage returned by any solver (Lambert W, newton, brentq, chandrupatla) '
  'satisfies the single-diode equation, the maximum power point lies on the '
  'curve where power is stationary and equals current times voltage, and '
  'singlediode returns its seven named points at the documented voltages.',
  'all parameter sets with positive diode parameters, all voltages and '
  'currents, all methods; arrays, Series and scalars; photocurrent of zero',
  'Tests compare a few modules with stored numbers; the equation and the '
  'derivatives Newton relies on must hold for every parameter set.',
  ['pvlib/singlediode.py', 'pvlib/pvsystem.py', 'pvlib/ivtools/utils.py'],
  [('bishop88', 'singlediode.bishop88'),
   ('bishop88_i_from_v', 'singlediode.bishop88_i_from_v'),
   ('bishop88_v_from_i', 'singlediode.bishop88_v_from_i'),
   ('bishop88_mpp', 'singlediode.bishop88_mpp'),
   ('_lambertw_i_from_v', 'singlediode._lambertw_i_from_v'),
   ('_lambertw_v_from_i', 'singlediode._lambertw_v_from_i'),
   ('singlediode', 'pvsystem.singlediode'),
   ('max_power_point', 'pvsystem.max_power_point')], ['diode'])

P('C09', 'DC models return the value of their published formula',
  'The five single-diode parameters at operating conditions (De Soto, CEC, '
  'PVsyst), the SAPM points and effective irradiance, PVWatts DC power and '
  'losses, ohmic losses and the scaling to strings and arrays are the '
  'values of the published models for every input. They reduce to the '
  'reference values at reference conditions.',
  'all irradiances, temperatures and module parameters; arrays, Series and '
  'scalars; zero, negative and missing irradiance',
  'Tests sample a few operating points of a few modules; the formulas, '
  'their zero-irradiance guards and containers must hold for all of them.',
  ['pvlib/pvsystem.py'],
  [('calcparams_desoto', 'pvsystem.calcparams_desoto'),
   ('calcparams_cec', 'pvsystem.calcparams_cec'),
   ('calcparams_pvsyst', 'pvsystem.calcparams_pvsyst'),
   ('sapm', 'pvsystem.sapm'),
   ('sapm_effective_irradiance', 'pvsystem.sapm_effective_irradiance'),
   ('pvwatts_dc', 'pvsystem.pvwatts_dc'),
   ('pvwatts_losses', 'pvsystem.pvwatts_losses'),
   ('dc_ohmic_losses', 'pvsystem.dc_ohmic_losses'),
   ('scale_voltage_current_power',
    'pvsystem.scale_voltage_current_power')], ['dcmodels'])

P('C13', 'Clear-sky models are their published formulas and close',
  'The Ineichen-Perez (with and without enhancement), Haurwitz, simplified '
  'Solis and Bird clear-sky irradiances are the values of the published '
  'models for every input and container, and the interpolated Linke '
  'turbidity of the cell of the grid is piecewise linear between month '
  'middles. Ineichen irradiances '
  'are not negative, vanish at night and satisfy GHI = DHI + DNI cos(zenith).',
  'all zenith angles, air masses, turbidities, aerosol depths, pressures, '
  'altitudes; arrays, Series (also of length one) and scalars; missing values',
  'Tests sample a few sites; branches on aerosol depth, night and missing '
  'values and the containers must hold for every input.',
  ['pvlib/clearsky.py'],
  [('ineichen', 'clearsky.ineichen'), ('haurwitz', 'clearsky.haurwitz'),
   ('simplified_solis', 'clearsky.simplified_solis'),
   ('bird', 'clearsky.bird'),
   ('_interpolate_turbidity', 'clearsky._interpolate_turbidity'),
   ('lookup_linke_turbidity', 'clearsky.lookup_linke_turbidity')],
  ['clear', 'ephem'])

P('C14', 'Solar position: SPA and analytical models, independent of time zone',
  'Every step of the NREL solar position algorithm (heliocentric series, '
  'nutation, sidereal time, parallax, refraction, azimuth, equation of time, '
  'delta T, sunrise/sunset/transit) is its published equation, and numpy, '
  'numba-loop and multithreaded drivers compose the same steps. Results '
  'depend only on the instant, never on the zone or daylight-saving state '
  'it is given in: hour angle, geometric and SPA sunrise/sunset refer to the '
  'local calendar day; azimuth is within 0..360 and true zenith within '
  '0..180. get_solarposition selects the method and derives pressure from '
  'altitude and vice versa, and the analytical declination, equation of '
  'time, zenith and azimuth are the published formulas. The Sandia '
  'ephemeris and PyEphem drivers agree with them, their rise, set and '
  'calc_time instants are those at which the sun is where it should be.',
  'all instants (also on days with a clock change), zones, locations, '
  'pressures, temperatures; arrays of any length; thread splitting bounded',
  'Tests compare a few instants with tables; each equation, the agreement of '
  'the drivers and zone independence must hold for all instants.',
  ['pvlib/spa.py', 'pvlib/solarposition.py'],
  [('SPA steps', 'spa.julian_day .. spa.equation_of_time'),
   ('solar_position_numpy', 'spa.solar_position_numpy'),
   ('solar_position_loop', 'spa.solar_position_loop'),
   ('solar_position_numba', 'spa.solar_position_numba'),
   ('transit_sunrise_sunset', 'spa.transit_sunrise_sunset'),
   ('calculate_deltat', 'spa.calculate_deltat'),
   ('spa_python', 'solarposition.spa_python'),
   ('get_solarposition', 'solarposition.get_solarposition'),
   ('hour_angle', 'solarposition.hour_angle'),
   ('sun_rise_set_transit_geometric',
    'solarposition.sun_rise_set_transit_geometric'),
   ('ephemeris', 'solarposition.ephemeris'),
   ('pyephem', 'solarposition.pyephem'),
   ('sun_rise_set_transit_ephem',
    'solarposition.sun_rise_set_transit_ephem')], ['sun', 'ephem'])

P('C15', 'PVSystem, Array and mounts pass the right values to the model functions',
  'Every PVSystem and Array method calls the model function of the same name '
  'with that array\'s own module, temperature-model, loss and inverter '
  'parameters (only those the model takes, only where given) and its own '
  'surface orientation, albedo and string layout. Values given per array '
  'are matched by position, a value common to all arrays is shared, results '
  'come back as a tuple in array order (unwrapped for one array), and a '
  'wrong number of values, a missing parameter or an unknown model is '
  'refused.',
  'all inputs, parameter dictionaries with and without optional and '
  'unrelated entries, one and two arrays of any length',
  'Tests check single delegations with mocks; a swapped array, a dropped or '
  'extra parameter shows only for a particular combination of arrays and '
  'optional parameters.',
  ['pvlib/pvsystem.py'],
  [('PVSystem', 'pvsystem.PVSystem'), ('Array', 'pvsystem.Array'),
   ('FixedMount', 'pvsystem.FixedMount'),
   ('SingleAxisTrackerMount', 'pvsystem.SingleAxisTrackerMount'),
   ('_build_kwargs', 'pvsystem._build_kwargs')], ['system'])

P('C16', 'ModelChain composes the models in the documented order with each array\'s data',
  'run_model, run_model_from_poa and run_model_from_effective_irradiance '
  'give exactly the composition of the selected models: solar position '
  '(with the given pressure and temperature), air mass, per-array incidence '
  'angle, plane-of-array irradiance, reflection and spectral modifiers, '
  'effective irradiance, cell temperature (given, from module temperature, '
  'or modelled), DC power scaled by string layout, ohmic losses, losses, AC '
  'power. Each array gets its own weather, albedo and parameters, in order, '
  'defaults are 20 C and 0 m/s, and the caller\'s data are not modified. '
  'Models are inferred from the parameters common to all arrays in the '
  'documented order; incomplete or inconsistent input is refused.',
  'all weather and location values, one and two arrays, frame, tuple and '
  'list input, every model selection and pair of parameter sets',
  'Integration tests run a handful of configurations on a few rows; a wrong '
  'column, array, order or default shows only for particular combinations.',
  ['pvlib/modelchain.py', 'pvlib/location.py'],
  [('ModelChain.run_model', 'modelchain.ModelChain.run_model'),
   ('run_model_from_poa', 'modelchain.ModelChain.run_model_from_poa'),
   ('run_model_from_effective_irradiance',
    'modelchain.ModelChain.run_model_from_effective_irradiance'),
   ('_prepare_temperature', 'modelchain.ModelChain._prepare_temperature'),
   ('infer_dc_model', 'modelchain.ModelChain.infer_dc_model')], ['chain'])

P('C17', 'Location hands its own coordinates to the models; trigonometry in degrees',
  'A Location computes solar position, air mass, clear-sky irradiance and '
  'sunrise/sunset/transit with its own latitude, longitude and altitude, '
  'with pressure from altitude unless given, with apparent or true zenith '
  'as the air-mass model requires, and computes solar position, extra '
  'radiation and air mass only when they are not given. Zones are accepted '
  'as names and whole offsets (positive east), metadata constructors keep '
  'latitude, longitude, altitude and zone, and grid look-ups use the cell '
  'the coordinate lies in and refuse coordinates out of range.',
  'all coordinates, altitudes and inputs given or omitted',
  'Tests use one site and mostly default arguments.',
  ['pvlib/location.py', 'pvlib/tools.py'],
  [('Location', 'location.Location'),
   ('_degrees_to_index', 'tools._degrees_to_index'),
   ('sind ..', 'tools.sind .. tools.atand')], ['place', 'ephem'])

P('C18', 'Spectral corrections and spectra follow their published models',
  'The spectral mismatch factors (First Solar, SAPM, Caballero, PVSPEC, JRC, '
  'Polo) equal their published polynomials with the module coefficients of '
  'the tables, clipped and refused only outside the documented ranges, and '
  'the SPECTRL2 spectrum equals the Bird and Riordan model at every '
  'wavelength. Quantum efficiency and spectral response convert into each '
  'other exactly, and mismatch and average photon energy are the trapezoid '
  'integrals of each spectrum given, row by row.',
  'all airmass, water, aerosol and clearness values; integrals: bounded',
  'Tests pin one value per module type and one spectrum.',
  ['pvlib/spectrum/mismatch.py', 'pvlib/spectrum/spectrl2.py',
   'pvlib/spectrum/irradiance.py', 'pvlib/spectrum/response.py'],
  [('spectral factors', 'spectrum.mismatch.spectral_factor_*'),
   ('spectrl2', 'spectrum.spectrl2.spectrl2, _spectrl2_transmittances'),
   ('integrals', 'spectrum.irradiance.average_photon_energy, '
    'mismatch.calc_spectral_mismatch_field'),
   ('conversions', 'spectrum.response.sr_to_qe, qe_to_sr')], ['spectra'])

P('C20', 'Explicit array, inverter-side and albedo models equal their formulas',
  'The ADR and Huld array efficiency models, the Batzelis explicit array and '
  'single-diode models, the two-parameter transformer model, the '
  'inland-water albedo model and the combination of loss factors equal their '
  'published formulas for every operating condition and module type, with '
  'the documented defaults, units and limits.',
  'all irradiances, temperatures and coefficients; loss factors: bounded',
  'Tests pin a few rows of published tables; an error in a rarely used '
  'branch (very low light, dark rows, a different cell type or parameter '
  'set) is invisible there.',
  ['pvlib/pvarray.py', 'pvlib/singlediode.py', 'pvlib/transformer.py',
   'pvlib/albedo.py', 'pvlib/pvsystem.py'],
  [('ADR', 'pvarray.pvefficiency_adr'), ('Huld', 'pvarray.huld'),
   ('Batzelis', 'pvarray.batzelis, singlediode.batzelis'),
   ('transformer', 'transformer.simple_efficiency'),
   ('water albedo', 'albedo.inland_water_dvoracek'),
   ('loss factors', 'pvsystem.combine_loss_factors')], ['panels'])

P('C19', 'Bifacial irradiance: view factors and shadows of long parallel rows',
  'The view factors between rows, ground segments and sky equal the '
  'geometric ones of infinitely long rows (the integrated forms are the mean '
  'over the segment of the point form), the ground shadow is the overlap of '
  'the rows\' shadows with the segment, and both sides receive direct, sky '
  'and ground irradiance composed from them, with circumsolar diffuse moved '
  'to the beam for the anisotropic sky models. The back side is the front '
  'side turned over, and segments are given in order from the low edge. The '
  'pvfactors interface runs that engine on the geometry and weather given.',
  'all rotations, sun positions and weather; integrated ground view factors '
  'and the complete ants2d composition: bounded',
  'Tests pin a few geometries; a wrong edge, segment or swapped end shows '
  'only for particular tilts, heights and segment positions.',
  ['pvlib/bifacial/utils.py', 'pvlib/bifacial/infinite_sheds.py',
   'pvlib/bifacial/ants2d.py', 'pvlib/bifacial/loss_models.py',
   'pvlib/bifacial/pvfactors.py'],
  [('view factors', 'bifacial.utils.vf_row_sky_2d, vf_row_ground_2d, '
    'vf_ground_sky_2d and their _integ forms'),
   ('ground shadow', 'bifacial.utils._unshaded_ground_fraction'),
   ('infinite sheds', 'bifacial.infinite_sheds.get_irradiance'),
   ('ants2d', 'bifacial.ants2d.get_irradiance'),
   ('mismatch', 'bifacial.loss_models.power_mismatch_deline')], ['rows'])

P('C21', 'Soiling and snow losses accumulate over the whole history',
  'The HSU soiling ratio follows the mass deposited since the last rain that '
  'reached the cleaning threshold, and Kimber soiling grows at its daily rate '
  'from its initial value, is reset by rain events, grace periods and manual '
  'washing and is capped. NREL snow coverage is full after every new '
  'snowfall, slides off only when warm and sunny enough, never falls below '
  'zero and clears where there is no snow on the ground, for every history, '
  'time step and threshold. The Townsend monthly loss and the string loss '
  'follow their formulas, and inputs are not modified.',
  'histories of any length with even or uneven steps; Kimber\'s manual '
  'washing dates: bounded',
  'Tests run one or two short histories with regular hourly steps; the '
  'state after several events, daily or irregular steps and the first rows '
  'are not reached.',
  ['pvlib/soiling.py', 'pvlib/snow.py'],
  [('hsu', 'soiling.hsu'), ('kimber', 'soiling.kimber'),
   ('coverage', 'snow.coverage_nrel, fully_covered_nrel'),
   ('losses', 'snow.dc_loss_nrel, loss_townsend')], ['cover', 'histories'],
  over=('inputs', 'histories'), note=IND + 'The same models are also run on '
  'sampled histories against a loop that keeps the state (bounded), which '
  'alone covers manual washing dates and the rolling windows.')

P('C22', 'DIRINT family: neighbours, bins and tilted irradiance in reverse',
  'DIRINT multiplies the DISC direct irradiance by the published coefficient '
  'of the bins of clearness, zenith, dew-point water and mean change to the '
  'neighbouring times, every bin edge included, and is missing outside the '
  'bins; DIRINDEX scales the clear-sky direct irradiance by the ratio of two '
  'DIRINT results. GTI-DIRINT keeps the best iterate of its loop for every '
  'time in front of the plane and the tilted decomposition behind it. The '
  'global irradiance found from plane-of-array irradiance reproduces that '
  'irradiance, is zero in the dark and missing where no solution exists.',
  'DIRINT and DIRINDEX: histories of any length; GTI-DIRINT and the global '
  'irradiance from plane of array: bounded histories of up to 48 times',
  'Tests pin a handful of rows; each of 1260 coefficient cells and each bin '
  'edge is used by few inputs.',
  ['pvlib/irradiance.py'],
  [('DIRINT', 'irradiance.dirint, _dirint_bins, _dirint_coeffs'),
   ('DIRINDEX', 'irradiance.dirindex'), ('GTI', 'irradiance.gti_dirint'),
   ('reverse', 'irradiance.ghi_from_poa_driesse_2024')], ['dirint', 'dirintrows'],
  over=('inputs', 'histories'), note=IND + 'GTI-DIRINT and the root search '
  'of ghi_from_poa_driesse_2024 are executed on sampled histories (bounded, '
  'listed in the evidence under bounded_only and not counted as proved).')

P('C23', 'Transient module temperature and spatial smoothing follow the history',
  'Fuentes\' module temperature integrates the heat balance with the state of '
  'the previous time step over the actual (also uneven) steps, with the '
  'published mixed convection and mounting capacity; Prilliman\'s moving '
  'average weighs the last twenty minutes with wind and module mass and '
  'leaves coarser data unchanged. The wavelet variability model smooths each '
  'time scale with the distances between the plant\'s points and adds the '
  'scales back to the original signal for a plant of one point.',
  'histories of weather of any length, uneven time steps, mountings, masses; '
  'plants of one or many points',
  'Tests replay a few recorded days; the carried state, step lengths and '
  'scale weights show their faults only for particular histories.',
  ['pvlib/temperature.py', 'pvlib/scaling.py', 'pvlib/tools.py'],
  [('fuentes', 'temperature.fuentes'),
   ('prilliman', 'temperature.prilliman'), ('wvm', 'scaling.wvm'),
   ('_fuentes_hconv', 'temperature._fuentes_hconv')], ['dynamic'],
  over=('inputs', 'histories'), level='exploration', note=HIST)

P('C24', 'Parameter estimation reproduces what was fitted',
  'Every fitting function returns parameters whose model reproduces the '
  'data: De Soto\'s five equations are the single-diode equation at the '
  'three points, its stationarity and the open circuit two degrees up, and '
  'fit_desoto returns a root of them or reports failure; the Batzelis, '
  'simple Sandia and co-content estimates follow their formulas; curves of '
  'a known module give that module back (De Soto and PVsyst from IV curves, '
  'PVsyst from IEC 61853 tables with every optional coefficient, ADR '
  'efficiency, Sandia inverter, incidence-angle models and conversions). '
  'The helpers are exact where they can be: derivatives of quartics, splines '
  'through their data, integrals of their pieces, regressions of data that '
  'obey the regression, points and fill factor of a measured curve.',
  'modules, curves, tables and options; data that follow the model exactly',
  'Tests pin the results for one or two data sets, some of them known to be '
  'nonsense; that the fit inverts the model is a statement on all of them.',
  ['pvlib/ivtools/sde.py', 'pvlib/ivtools/utils.py',
   'pvlib/ivtools/sdm/desoto.py', 'pvlib/ivtools/sdm/pvsyst.py',
   'pvlib/ivtools/sdm/cec.py',
   'pvlib/ivtools/sdm/_fit_desoto_pvsyst_sandia.py', 'pvlib/iam.py',
   'pvlib/inverter.py', 'pvlib/pvarray.py'],
  [('fit_desoto', 'ivtools.sdm.desoto.fit_desoto'),
   ('_system_of_equations_desoto',
    'ivtools.sdm.desoto._system_of_equations_desoto'),
   ('fit_sandia_simple', 'ivtools.sde.fit_sandia_simple'),
   ('fit_pvsyst_sandia', 'ivtools.sdm.pvsyst.fit_pvsyst_sandia'),
   ('fit_pvsyst_iec61853_sandia_2025',
    'ivtools.sdm.pvsyst.fit_pvsyst_iec61853_sandia_2025'),
   ('inverter.fit_sandia', 'inverter.fit_sandia'),
   ('iam.fit, iam.convert', 'iam.fit, iam.convert')], ['fitting'],
  level='exploration',
  note='The De Soto system, the Batzelis and the simple Sandia formulas are '
  'proved; iterative and least-squares fits are bounded round trips over '
  'sampled modules (listed under bounded_only, not counted as proved).')

P('C25', 'Clear-sky detection compares every window with clear sky',
  'A sample is clear exactly when at least one window that covers it meets '
  'all the published criteria: mean and maximum difference, line length, '
  'deviation of slopes and largest change of slope, each inside its open '
  'threshold interval, with a positive clear sky at the window; the clear '
  'sky is first scaled to the clear samples until the factor settles, and '
  'the factor, the components and the refusals (uneven data, bad lengths, '
  'too few samples) are as documented. The limits inferred from the sample '
  'interval interpolate the published table.',
  'measured and expected series of any shape, sample interval and window '
  'length, thresholds',
  'Tests replay one synthetic day; window edges, scaling and each criterion '
  'show their faults only on particular series.',
  ['pvlib/clearsky.py', 'pvlib/tools.py'],
  [('detect_clearsky', 'clearsky.detect_clearsky'),
   ('_clearsky_get_threshold', 'clearsky._clearsky_get_threshold'),
   ('_clear_sample_index', 'clearsky._clear_sample_index'),
   ('_calc_stats', 'clearsky._calc_stats')], ['detect'],
  over=('inputs', 'histories'), level='exploration', note=HIST)

P('C26', 'Files and services are read into the right rows, names and places',
  'Every reader puts each value of the file in the documented column at the '
  'documented time with its time zone, keeps missing values missing, and '
  'returns the metadata of the site: TMY2, TMY3, EPW, BSRN, MIDC, CRN, '
  'SURFRAD, SOLRAD, SRML, PSM4, PVGIS, CAMS, PAN and OND files and the SAM '
  'component libraries. Every web '
  'service request carries the place, times, interval and variables asked '
  'for, errors of the service become errors, and the reply is returned with '
  'the same mapping: PVGIS, Solargis, SolarAnywhere, Solcast, NASA POWER, '
  'Meteonorm, ERA5, MERRA-2, ACIS and the station archives.',
  'file contents and service replies of the documented formats; requests',
  'Tests read one recorded file per format and most service tests need the '
  'network; a swapped column, shifted hour or lost row shows only on other '
  'contents.',
  ['pvlib/iotools/*.py', 'pvlib/pvsystem.py'],
  [('TMY', 'iotools.tmy'), ('EPW', 'iotools.epw'), ('BSRN', 'iotools.bsrn'),
   ('PVGIS', 'iotools.pvgis'), ('PSM4', 'iotools.psm4'),
   ('Solcast', 'iotools.solcast'), ('ACIS', 'iotools.acis'),
   ('Meteonorm', 'iotools.meteonorm')], ['readers', 'services'],
  over=('inputs', 'histories'), level='exploration',
  note='Text parsing by pandas and json is outside the verifier\'s '
  'reach: the contracts are executed on generated files and replies '
  '(bounded, not counted as proved); the network is replaced by a stand-in '
  'that records the request and returns the generated reply.')
