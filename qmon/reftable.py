# Reference table of units (written independently of the library, see tools/unitdefs.txt).
# (name, labels that must parse, module attributes, SI value, SI dimension)
ROWS = [
 ('second', ['second', 's', 'sec', 'seconds'], ['s', 'sec', 'second'], '1', 's'),
 ('kilosecond', ['kilosecond', 'ks', 'kiloseconds'], ['ks', 'kilosecond'], '1e3', 's'),
 ('megasecond', ['megasecond', 'Ms', 'megaseconds'], ['Ms', 'megasecond'], '1e6', 's'),
 ('millisecond', ['millisecond', 'ms', 'milliseconds'], ['ms', 'millisecond'], '1e-3', 's'),
 ('microsecond', ['microsecond', 'us', 'microseconds'], ['us', 'microsecond'], '1e-6', 's'),
 ('nanosecond', ['nanosecond', 'ns', 'nanoseconds'], ['ns', 'nanosecond'], '1e-9', 's'),
 ('picosecond', ['picosecond', 'ps', 'picoseconds'], ['ps', 'picosecond'], '1e-12', 's'),
 ('femtosecond', ['femtosecond', 'fs', 'femtoseconds'], ['fs', 'femtosecond'], '1e-15', 's'),
 ('attosecond', ['attosecond', 'as', 'attoseconds'], ['attosecond'], '1e-18', 's'),
 ('minute', ['minute', 'min', 'minutes'], ['min', 'minute'], '60', 's'),
 ('hour', ['hour', 'h', 'hr', 'hours'], ['h', 'hr', 'hour'], '3600', 's'),
 ('day', ['day', 'd', 'days'], ['d', 'day'], '86400', 's'),
 ('week', ['week', 'weeks'], ['week'], '604800', 's'),
 ('fortnight', ['fortnight', 'fortnights'], ['fortnight'], '1209600', 's'),
 ('year', ['year', 'yr', 'a', 'years', 'tropical_year', 'tropical_years'], ['yr', 'year', 'tropical_year', 'a'], '31556925.9747', 's'),
 ('month', ['month', 'months'], ['month'], '31556925.9747/12', 's'),
 ('shake', ['shake', 'shakes'], ['shake'], '1e-8', 's'),
 ('sidereal_day', ['sidereal_day', 'sidereal_days'], ['sidereal_day'], '86400/1.00273790935079524', 's'),
 ('sidereal_hour', ['sidereal_hour', 'sidereal_hours'], ['sidereal_hour'], '3600/1.00273790935079524', 's'),
 ('sidereal_minute', ['sidereal_minute', 'sidereal_minutes'], ['sidereal_minute'], '60/1.00273790935079524', 's'),
 ('sidereal_second', ['sidereal_second', 'sidereal_seconds'], ['sidereal_second'], '1/1.00273790935079524', 's'),
 ('sidereal_year', ['sidereal_year', 'sidereal_years'], ['sidereal_year'], '366.25636042*86400/1.00273790935079524', 's'),
 ('sidereal_month', ['sidereal_month', 'sidereal_months'], ['sidereal_month'], '27.321661*86400', 's'),
 ('tropical_month', ['tropical_month', 'tropical_months'], ['tropical_month'], '27.321582*86400', 's'),
 ('synodic_month', ['synodic_month', 'synodic_months', 'lunar_month', 'lunar_months'], ['synodic_month', 'lunar_month'], '29.530589*86400', 's'),
 ('common_year', ['common_year', 'common_years'], ['common_year'], '365*86400', 's'),
 ('leap_year', ['leap_year', 'leap_years'], ['leap_year'], '366*86400', 's'),
 ('Julian_year', ['Julian_year', 'Julian_years'], ['Julian_year'], '365.25*86400', 's'),
 ('Gregorian_year', ['Gregorian_year', 'Gregorian_years'], ['Gregorian_year'], '365.2425*86400', 's'),
 ('millenium', ['millenium', 'millenia'], ['millenium'], '31556925974.7', 's'),
 ('eon', ['eon', 'eons'], ['eon'], '31556925974.7e6', 's'),
 ('work_year', ['work_year', 'work_years'], ['work_year'], '2056*3600', 's'),
 ('work_month', ['work_month', 'work_months'], ['work_month'], '2056*300', 's'),
 ('meter', ['meter', 'm', 'meters', 'metre', 'metres'], ['m', 'meter', 'metre'], '1', 'm'),
 ('kilometer', ['kilometer', 'km', 'kilometers', 'kilometre', 'kilometres'], ['km', 'kilometer', 'kilometre'], '1e3', 'm'),
 ('decimeter', ['decimeter', 'dm', 'decimeters', 'decimetre', 'decimetres'], ['dm', 'decimeter', 'decimetre'], '0.1', 'm'),
 ('centimeter', ['centimeter', 'cm', 'centimeters', 'centimetre', 'centimetres'], ['cm', 'centimeter', 'centimetre'], '0.01', 'm'),
 ('millimeter', ['millimeter', 'mm', 'millimeters', 'millimetre', 'millimetres'], ['mm', 'millimeter', 'millimetre'], '1e-3', 'm'),
 ('micrometer', ['micrometer', 'um', 'micron', 'microns', 'micrometers', 'micrometre', 'micrometres'], ['um', 'micrometer', 'micrometre', 'micron'], '1e-6', 'm'),
 ('nanometer', ['nanometer', 'nm', 'nanometers', 'nanometre', 'nanometres'], ['nm', 'nanometer', 'nanometre'], '1e-9', 'm'),
 ('picometer', ['picometer', 'pm', 'picometers', 'picometre', 'picometres'], ['pm', 'picometer', 'picometre'], '1e-12', 'm'),
 ('angstrom', ['angstrom', 'angstroms'], ['angstrom'], '1e-10', 'm'),
 ('femtometer', ['femtometer', 'fm', 'femtometers', 'femtometre', 'femtometres', 'fermi', 'fermis'], ['fm', 'femtometer', 'femtometre', 'fermi'], '1e-15', 'm'),
 ('inch', ['inch', 'in', 'inches', 'international_inch', 'international_inches'], ['inch', 'international_inch'], '0.0254', 'm'),
 ('foot', ['foot', 'ft', 'feet', 'international_foot', 'international_feet'], ['ft', 'foot', 'international_foot'], '0.3048', 'm'),
 ('mile', ['mile', 'mi', 'miles', 'international_mile', 'international_miles'], ['mi', 'mile', 'international_mile'], '1609.344', 'm'),
 ('yard', ['yard', 'yd', 'yards', 'international_yard', 'international_yards'], ['yd', 'yard', 'international_yard'], '0.9144', 'm'),
 ('mil', ['mil', 'mils', 'thou', 'thous'], ['mil', 'thou'], '0.0000254', 'm'),
 ('parsec', ['parsec', 'pc', 'parsecs'], ['pc', 'parsec'], '3.08568025e16', 'm'),
 ('light_year', ['light_year', 'ly', 'light_years'], ['ly', 'light_year'], '9460730472580800', 'm'),
 ('astronomical_unit', ['astronomical_unit', 'au', 'astronomical_units'], ['au', 'astronomical_unit'], '149597870691', 'm'),
 ('nautical_mile', ['nautical_mile', 'nmi', 'nmile', 'nmiles', 'nautical_miles'], ['nmi', 'nautical_mile'], '1852', 'm'),
 ('printers_point', ['printers_point', 'point', 'printers_points', 'points'], ['printers_point', 'point'], '0.0254/72', 'm'),
 ('pica', ['pica', 'picas', 'printers_pica', 'printers_picas'], ['pica'], '0.0254/6', 'm'),
 ('US_survey_foot', ['US_survey_foot', 'US_survey_feet'], ['US_survey_foot'], '1200/3937', 'm'),
 ('US_survey_yard', ['US_survey_yard', 'US_survey_yards'], ['US_survey_yard'], '3600/3937', 'm'),
 ('US_survey_mile', ['US_survey_mile', 'US_survey_miles', 'US_statute_mile', 'US_statute_miles'], ['US_survey_mile', 'US_statute_mile'], '5280*1200/3937', 'm'),
 ('rod', ['rod', 'rods', 'pole', 'poles', 'perch', 'perches'], ['rod', 'pole', 'perch'], '16.5*1200/3937', 'm'),
 ('furlong', ['furlong', 'furlongs'], ['furlong'], '660*1200/3937', 'm'),
 ('fathom', ['fathom', 'fathoms'], ['fathom'], '6*1200/3937', 'm'),
 ('chain', ['chain', 'chains'], ['chain'], '66*1200/3937', 'm'),
 ('barleycorn', ['barleycorn', 'barleycorns'], ['barleycorn'], '0.0254/3', 'm'),
 ('arpentlin', ['arpentlin'], ['arpentlin'], '191.835*0.3048', 'm'),
 ('kayser', ['kayser', 'kaysers', 'wavenumber', 'wavenumbers'], ['kayser', 'wavenumber'], '100', 'm-1'),
 ('standard_gravity', ['standard_gravity', 'g_0'], ['g_0', 'g_n', 'gravity', 'standard_gravity', 'gee', 'free_fall', 'standard_free_fall', 'gp', 'dynamic', 'geopotential'], '9.80665', 'm s-2'),
 ('radian', ['radian', 'rad', 'radians'], ['rad', 'radian', 'radians'], '1', ''),
 ('milliradian', ['milliradian', 'mrad', 'milliradians'], ['mrad', 'milliradian'], '1e-3', ''),
 ('microradian', ['microradian', 'urad', 'microradians'], ['urad', 'microradian'], '1e-6', ''),
 ('turn', ['turn', 'turns', 'revolutions', 'circles', 'cycles'], ['turn', 'revolution', 'cycle', 'turns', 'circle', 'circles'], '2*PI', ''),
 ('arcdegree', ['arcdegree', 'deg', 'degree', 'degrees', 'arc_degree', 'arc_degrees', 'angular_degree', 'angular_degrees', 'arcdegrees', 'arcdeg'], ['deg', 'degree', 'degrees', 'arcdeg', 'arcdegree', 'angular_degree'], 'PI/180', ''),
 ('arcminute', ['arcminute', 'arcmin', 'arcmins', 'arcminutes', 'arc_minute', 'arc_minutes', 'angular_minute', 'angular_minutes'], ['arcminute', 'arcmin', 'arc_minute', 'angular_minute'], 'PI/10800', ''),
 ('arcsecond', ['arcsecond', 'arcsec', 'arcsecs', 'arcseconds', 'arc_second', 'arc_seconds', 'angular_second', 'angular_seconds'], ['arcsecond', 'arcsec', 'arc_second', 'angular_second'], 'PI/648000', ''),
 ('grad', ['grad', 'grads', 'grade', 'grades', 'gron', 'grons', 'gradian', 'gradians'], ['grad', 'grade'], 'PI/200', ''),
 ('degrees_north', ['degrees_north', 'degN', 'degrees_N'], ['degrees_north', 'degrees_N'], 'PI/180', ''),
 ('degrees_east', ['degrees_east', 'degE', 'degrees_E'], ['degrees_east', 'degrees_E'], 'PI/180', ''),
 ('degrees_west', ['degrees_west', 'degW', 'degrees_W'], ['degrees_west', 'degrees_W'], 'PI/180', ''),
 ('degrees_true', ['degrees_true', 'degT', 'degrees_T'], ['degrees_true', 'degrees_T'], 'PI/180', ''),
 ('steradian', ['steradian', 'sr', 'steradians'], ['sr', 'steradian'], '1', ''),
 ('are', ['are', 'ares'], ['are', 'ares'], '100', 'm2'),
 ('barn', ['barn', 'b', 'barnes'], ['b', 'barn'], '1e-28', 'm2'),
 ('circular_mil', ['circular_mil', 'cmil', 'circular_mils'], ['cmil', 'circular_mil'], '5.067075e-10', 'm2'),
 ('darcy', ['darcy', 'D'], ['D', 'darcy'], '9.869233e-13', 'm2'),
 ('millidarcy', ['millidarcy', 'mD'], ['mD', 'millidarcy'], '9.869233e-16', 'm2'),
 ('hectare', ['hectare', 'ha', 'hectares'], ['ha', 'hectare'], '1e4', 'm2'),
 ('acre', ['acre', 'acres', 'international_acre', 'international_acres'], ['acre', 'international_acre'], '4046.8564224', 'm2'),
 ('US_survey_acre', ['US_survey_acre', 'US_survey_acres'], ['US_survey_acre'], '43560*(1200/3937)**2', 'm2'),
 ('mole', ['mole', 'mol'], ['mol', 'mole'], '1', 'mol'),
 ('millimole', ['millimole', 'mmol'], ['mmol'], '1e-3', 'mol'),
 ('micromole', ['micromole', 'umol'], ['umol'], '1e-6', 'mol'),
 ('molar', ['molar', 'M', 'Molar'], ['M', 'molar'], '1e3', 'mol m-3'),
 ('millimolar', ['millimolar', 'mM'], ['mM', 'millimolar'], '1', 'mol m-3'),
 ('micromolar', ['micromolar', 'uM'], ['uM', 'micromolar'], '1e-3', 'mol m-3'),
 ('dimensionless', ['dimensionless'], ['dimensionless'], '1', ''),
 ('percent', ['percent', '%'], ['percent'], '0.01', ''),
 ('count', ['count', 'ct', 'cts', 'counts'], ['count', 'counts'], '1', ''),
 ('least_significant_bit', ['least_significant_bit', 'lsb', 'lsbs'], ['lsb'], '1', ''),
 ('liter', ['liter', 'L', 'l', 'liters', 'litre', 'litres'], ['L', 'l', 'liter', 'litre'], '1e-3', 'm3'),
 ('milliliter', ['milliliter', 'mL', 'ml', 'milliliters', 'millilitre', 'millilitres'], ['mL', 'milliliter', 'millilitre'], '1e-6', 'm3'),
 ('kiloliter', ['kiloliter', 'kL', 'kl', 'kiloliters', 'kilolitre', 'kilolitres'], ['kL', 'kiloliter', 'kilolitre'], '1', 'm3'),
 ('megaliter', ['megaliter', 'ML', 'Ml', 'megaliters', 'megalitre', 'megalitres'], ['ML', 'megaliter', 'megalitre'], '1e3', 'm3'),
 ('gigaliter', ['gigaliter', 'GL', 'Gl', 'gigaliters', 'gigalitre', 'gigalitres'], ['GL', 'gigaliter', 'gigalitre'], '1e6', 'm3'),
 ('cubic_centimeter', ['cubic_centimeter', 'cc', 'cubic_centimeters'], ['cc', 'cubic_centimeter'], '1e-6', 'm3'),
 ('stere', ['stere', 'steres'], ['stere'], '1', 'm3'),
 ('gross_register_ton', ['gross_register_ton', 'GRT', 'gross_register_tons', 'register_ton', 'register_tons'], ['gross_register_ton', 'register_ton'], '100*0.3048**3', 'm3'),
 ('acre_foot', ['acre_foot', 'acre_feet'], ['acre_foot'], '43560*0.3048**3', 'm3'),
 ('board_foot', ['board_foot', 'FBM', 'board_feet'], ['board_foot'], '0.3048**3/12', 'm3'),
 ('US_bushel', ['US_bushel', 'bu'], ['bu', 'bushel', 'US_bushel'], '2150.42*0.0254**3', 'm3'),
 ('US_dry_gallon', ['US_dry_gallon'], ['US_dry_gallon'], '268.8025*0.0254**3', 'm3'),
 ('US_liquid_gallon', ['US_liquid_gallon', 'gallon', 'gallons', 'liquid_gallon', 'liquid_gallons', 'US_liquid_gallons'], ['gallon', 'liquid_gallon', 'US_liquid_gallon'], '231*0.0254**3', 'm3'),
 ('US_dry_quart', ['US_dry_quart', 'dry_quart', 'dry_quarts', 'US_dry_quarts'], ['dry_quart', 'US_dry_quart'], '268.8025*0.0254**3/4', 'm3'),
 ('US_dry_pint', ['US_dry_pint', 'dry_pint', 'dry_pints', 'US_dry_pints'], ['dry_pint', 'US_dry_pint'], '268.8025*0.0254**3/8', 'm3'),
 ('US_liquid_quart', ['US_liquid_quart', 'quart', 'quarts', 'liquid_quart', 'liquid_quarts', 'US_liquid_quarts'], ['quart', 'liquid_quart', 'US_liquid_quart'], '231*0.0254**3/4', 'm3'),
 ('US_liquid_pint', ['US_liquid_pint', 'pt', 'pint', 'pints', 'liquid_pint', 'liquid_pints', 'US_liquid_pints'], ['pt', 'pint', 'liquid_pint', 'US_liquid_pint'], '231*0.0254**3/8', 'm3'),
 ('cup', ['cup', 'cups', 'US_liquid_cup', 'US_liquid_cups'], ['cup', 'US_liquid_cup'], '231*0.0254**3/16', 'm3'),
 ('US_liquid_gill', ['US_liquid_gill', 'gill', 'gills', 'US_liquid_gills'], ['gill', 'US_liquid_gill'], '231*0.0254**3/32', 'm3'),
 ('US_fluid_ounce', ['US_fluid_ounce', 'fl_oz', 'fluid_ounce', 'fluid_ounces', 'US_fluid_ounces', 'US_liquid_ounce', 'US_liquid_ounces'], ['floz', 'fluid_ounce', 'US_fluid_ounce', 'US_liquid_ounce'], '231*0.0254**3/128', 'm3'),
 ('Imperial_bushel', ['Imperial_bushel'], ['Imperial_bushel'], '36.36872e-3', 'm3'),
 ('UK_liquid_gallon', ['UK_liquid_gallon', 'UK_liquid_gallons', 'Canadian_liquid_gallon', 'Canadian_liquid_gallons'], ['UK_liquid_gallon', 'Canadian_liquid_gallon'], '4.54609e-3', 'm3'),
 ('UK_liquid_quart', ['UK_liquid_quart', 'UK_liquid_quarts'], ['UK_liquid_quart'], '4.54609e-3/4', 'm3'),
 ('UK_liquid_pint', ['UK_liquid_pint', 'UK_liquid_pints'], ['UK_liquid_pint'], '4.54609e-3/8', 'm3'),
 ('UK_liquid_cup', ['UK_liquid_cup', 'UK_liquid_cups'], ['UK_liquid_cup'], '4.54609e-3/16', 'm3'),
 ('UK_liquid_gill', ['UK_liquid_gill', 'UK_liquid_gills'], ['UK_liquid_gill'], '4.54609e-3/32', 'm3'),
 ('UK_fluid_ounce', ['UK_fluid_ounce', 'UK_fluid_ounces', 'UK_liquid_ounce', 'UK_liquid_ounces'], ['UK_fluid_ounce', 'UK_liquid_ounce'], '4.54609e-3/160', 'm3'),
 ('barrel', ['barrel', 'bbl'], ['bbl', 'barrel'], '42*231*0.0254**3', 'm3'),
 ('tablespoon', ['tablespoon', 'tbsp', 'Tbsp', 'Tblsp', 'Tbl', 'tblsp', 'tbs', 'tablespoons'], ['tbsp', 'Tbsp', 'Tblsp', 'tblsp', 'tbs', 'Tbl', 'tablespoon'], '231*0.0254**3/256', 'm3'),
 ('teaspoon', ['teaspoon', 'tsp', 'teaspoons'], ['tsp', 'teaspoon'], '231*0.0254**3/768', 'm3'),
 ('peck', ['peck', 'pk', 'pecks'], ['pk', 'peck'], '2150.42*0.0254**3/4', 'm3'),
 ('fluid_dram', ['fluid_dram', 'fldr', 'fluid_drams', 'fluidram', 'fluidrams'], ['fldr', 'fluid_dram', 'fluidram'], '231*0.0254**3/1024', 'm3'),
 ('firkin', ['firkin'], ['firkin'], '42*231*0.0254**3/4', 'm3'),
 ('kilogram', ['kilogram', 'kg', 'kilograms'], ['kg', 'kilogram'], '1', 'kg'),
 ('gram', ['gram', 'g', 'grams'], ['g', 'gram'], '1e-3', 'kg'),
 ('milligram', ['milligram', 'mg', 'milligrams'], ['mg', 'milligram'], '1e-6', 'kg'),
 ('ounce', ['ounce', 'oz', 'ounces', 'avoirdupois_ounce', 'avoirdupois_ounces'], ['ounce', 'oz', 'avoirdupois_ounce'], '0.45359237/16', 'kg'),
 ('pound', ['pound', 'lb', 'pounds', 'avoirdupois_pound', 'avoirdupois_pounds'], ['lb', 'pound', 'avoirdupois_pound'], '0.45359237', 'kg'),
 ('stone', ['stone', 'st'], ['st', 'stone'], '14*0.45359237', 'kg'),
 ('carat', ['carat', 'carats'], ['carat'], '2e-4', 'kg'),
 ('grain', ['grain', 'gr', 'grains'], ['gr', 'grain'], '64.79891e-6', 'kg'),
 ('long_hundredweight', ['long_hundredweight', 'long_hundredweights'], ['long_hundredweight'], '112*0.45359237', 'kg'),
 ('short_hundredweight', ['short_hundredweight', 'short_hundredweights'], ['short_hundredweight'], '100*0.45359237', 'kg'),
 ('tonne', ['tonne', 't', 'tonnes'], ['t', 'metric_ton', 'tonne'], '1000', 'kg'),
 ('pennyweight', ['pennyweight', 'dwt', 'pennyweights'], ['dwt', 'pennyweight'], '24*64.79891e-6', 'kg'),
 ('slug', ['slug', 'slugs'], ['slug', 'slugs'], '14.5939', 'kg'),
 ('troy_ounce', ['troy_ounce', 'toz', 'apounce', 'apounces', 'apothecary_ounce', 'apothecary_ounces', 'troy_ounces'], ['toz', 'troy_ounce', 'apounce', 'apothecary_ounce'], '480*64.79891e-6', 'kg'),
 ('troy_pound', ['troy_pound', 'tlb', 'troy_pounds', 'appound', 'appounds', 'apothecary_pound', 'apothecary_pounds'], ['troy_pound', 'appound', 'apothecary_pound'], '5760*64.79891e-6', 'kg'),
 ('atomic_mass_unit', ['atomic_mass_unit', 'u', 'amu', 'Da', 'dalton'], ['u', 'amu', 'atomic_mass_unit', 'dalton', 'Da'], '1.660538782e-27', 'kg'),
 ('scruple', ['scruple', 'scruples'], ['scruple'], '20*64.79891e-6', 'kg'),
 ('dram', ['dram', 'dr', 'drams'], ['dr', 'dram'], '0.45359237/256', 'kg'),
 ('drachm', ['drachm', 'drachms', 'apdram', 'apdrams'], ['drachm', 'apdram'], '60*64.79891e-6', 'kg'),
 ('bag', ['bag', 'bags'], ['bag'], '94*0.45359237', 'kg'),
 ('short_ton', ['short_ton', 'short_tons'], ['ton', 'short_ton'], '2000*0.45359237', 'kg'),
 ('long_ton', ['long_ton', 'long_tons'], ['long_ton'], '2240*0.45359237', 'kg'),
 ('denier', ['denier', 'deniers'], ['denier'], '1e-3/9000', 'kg m-1'),
 ('tex', ['tex', 'texs'], ['tex'], '1e-6', 'kg m-1'),
 ('dtex', ['dtex', 'dtexs'], ['dtex'], '1e-7', 'kg m-1'),
 ('newton', ['newton', 'N', 'newtons'], ['N', 'newton'], '1', 'kg m s-2'),
 ('kilonewton', ['kilonewton', 'kN', 'kilonewtons'], ['kN', 'kilonewton'], '1e3', 'kg m s-2'),
 ('dyne', ['dyne', 'dyn', 'dynes'], ['dyne'], '1e-5', 'kg m s-2'),
 ('pond', ['pond', 'p', 'ponds'], ['pond'], '9.80665e-3', 'kg m s-2'),
 ('kilogram_force', ['kilogram_force', 'kgf', 'force_kilogram'], ['kgf', 'force_kilogram', 'kilogram_force'], '9.80665', 'kg m s-2'),
 ('ounce_force', ['ounce_force', 'ozf', 'force_ounce'], ['ozf', 'force_ounce', 'ounce_force'], '0.45359237/16*9.80665', 'kg m s-2'),
 ('pound_force', ['pound_force', 'lbf', 'force_pound'], ['lbf', 'force_pound', 'pound_force'], '0.45359237*9.80665', 'kg m s-2'),
 ('poundal', ['poundal', 'pdl', 'poundals'], ['poundal'], '0.45359237*0.3048', 'kg m s-2'),
 ('gram_force', ['gram_force', 'gf', 'force_gram'], ['gf', 'gram_force', 'force_gram'], '9.80665e-3', 'kg m s-2'),
 ('ton_force', ['ton_force', 'force_ton'], ['force_ton', 'ton_force'], '2000*0.45359237*9.80665', 'kg m s-2'),
 ('kip', ['kip'], ['kip'], '1000*0.45359237*9.80665', 'kg m s-2'),
 ('joule', ['joule', 'J', 'joules'], ['J', 'joule'], '1', 'kg m2 s-2'),
 ('erg', ['erg'], ['erg'], '1e-7', 'kg m2 s-2'),
 ('British_thermal_unit', ['British_thermal_unit', 'BTU'], ['btu', 'Btu', 'BTU', 'british_thermal_unit'], '1055.05585262', 'kg m2 s-2'),
 ('electron_volt', ['electron_volt', 'eV', 'electron_volts'], ['eV', 'electron_volt'], '1.60217653e-19', 'kg m2 s-2'),
 ('meV', ['meV'], ['meV'], '1.60217653e-22', 'kg m2 s-2'),
 ('keV', ['keV'], ['keV'], '1.60217653e-16', 'kg m2 s-2'),
 ('MeV', ['MeV'], ['MeV'], '1.60217653e-13', 'kg m2 s-2'),
 ('GeV', ['GeV'], ['bev', 'GeV'], '1.60217653e-10', 'kg m2 s-2'),
 ('EC_therm', ['EC_therm', 'thm'], ['thm', 'therm', 'EC_therm'], '105505585.262', 'kg m2 s-2'),
 ('thermochemical_calorie', ['thermochemical_calorie', 'cal', 'calorie', 'calories', 'thermochemical_calories'], ['cal', 'calorie', 'thermochemical_calorie'], '4.184', 'kg m2 s-2'),
 ('international_steam_table_calorie', ['international_steam_table_calorie', 'cal_IT', 'international_steam_table_calories'], ['international_steam_table_calorie'], '4.1868', 'kg m2 s-2'),
 ('ton_TNT', ['ton_TNT', 'tTNT'], ['ton_TNT'], '4.184e9', 'kg m2 s-2'),
 ('US_therm', ['US_therm', 'US_therms'], ['US_therm'], '1.054804e8', 'kg m2 s-2'),
 ('watt_hour', ['watt_hour', 'Wh', 'watthour', 'watthours', 'watt_hours'], ['Wh', 'watthour', 'watt_hour'], '3600', 'kg m2 s-2'),
 ('kilowatt_hour', ['kilowatt_hour', 'kWh', 'kilowatthour', 'kilowatthours', 'kilowatt_hours'], ['kWh', 'kilowatthour', 'kilowatt_hour'], '3.6e6', 'kg m2 s-2'),
 ('megawatt_hour', ['megawatt_hour', 'MWh', 'megawatthour', 'megawatthours', 'megawatt_hours'], ['MWh', 'megawatthour', 'megawatt_hour'], '3.6e9', 'kg m2 s-2'),
 ('gigawatt_hour', ['gigawatt_hour', 'GWh', 'gigawatthour', 'gigawatthours', 'gigawatt_hours'], ['GWh', 'gigawatthour', 'gigawatt_hour'], '3.6e12', 'kg m2 s-2'),
 ('hartree', ['hartree', 'E_h', 'hartrees', 'hartree_energy', 'Hartree_energy'], ['E_h', 'hartree', 'hartree_energy'], '4.35974394e-18', 'kg m2 s-2'),
 ('speed_of_light', ['speed_of_light', 'c'], ['c', 'speed_of_light'], '299792458', 'm s-1'),
 ('nautical_miles_per_hour', ['nautical_miles_per_hour', 'kt', 'knot', 'knots', 'knot_international', 'international_knot'], ['kt', 'knot', 'knot_international', 'international_knot'], '1852/3600', 'm s-1'),
 ('ampere', ['ampere', 'A', 'amp', 'amps', 'amperes'], ['A', 'amp', 'amps', 'ampere', 'amperes'], '1', 'A'),
 ('milliampere', ['milliampere', 'mA', 'milliamp', 'milliamps', 'milliamperes'], ['mA', 'milliamp', 'milliampere'], '1e-3', 'A'),
 ('microampere', ['microampere', 'uA', 'microamp', 'microamps', 'microamperes'], ['uA', 'microampere'], '1e-6', 'A'),
 ('nanoampere', ['nanoampere', 'nA', 'nanoamp', 'nanoamps', 'nanoamperes'], ['nA', 'nanoamp', 'nanoampere'], '1e-9', 'A'),
 ('picoampere', ['picoampere', 'pA', 'picoamp', 'picoamps', 'picoamperes'], ['pA', 'picoamp', 'picoampere'], '1e-12', 'A'),
 ('abampere', ['abampere', 'aA', 'abamperes', 'biot', 'biots'], ['aA', 'abampere', 'biot'], '10', 'A'),
 ('statcoulomb', ['statcoulomb', 'esu', 'statcoulombs', 'statC', 'franklin', 'franklins', 'Fr'], ['esu', 'statcoulomb', 'statC', 'franklin', 'Fr'], 'SQ10*1e-5', 'kg0.5 m1.5 s-1'),
 ('statampere', ['statampere', '(esu/s)', 'statamperes'], ['esu_per_second', 'statampere'], 'SQ10*1e-5', 'kg0.5 m1.5 s-2'),
 ('ampere_turn', ['ampere_turn'], ['ampere_turn'], '1', 'A'),
 ('gilbert', ['gilbert', 'Gi'], ['Gi', 'gilbert'], '10/(4*PI)', 'A'),
 ('coulomb', ['coulomb', 'C'], ['C', 'coulomb'], '1', 's A'),
 ('millicoulomb', ['millicoulomb', 'mC'], ['mC', 'millicoulomb'], '1e-3', 's A'),
 ('microcoulomb', ['microcoulomb', 'uC'], ['uC', 'microcoulomb'], '1e-6', 's A'),
 ('volt', ['volt', 'V', 'volts'], ['V', 'volt'], '1', 'kg m2 s-3 A-1'),
 ('kilovolt', ['kilovolt', 'kV', 'kilovolts'], ['kV', 'kilovolt'], '1e3', 'kg m2 s-3 A-1'),
 ('millivolt', ['millivolt', 'mV', 'millivolts'], ['mV', 'millivolt'], '1e-3', 'kg m2 s-3 A-1'),
 ('microvolt', ['microvolt', 'uV', 'microvolts'], ['uV', 'microvolt'], '1e-6', 'kg m2 s-3 A-1'),
 ('farad', ['farad', 'F', 'farads'], ['F', 'farad'], '1', 's4 A2 kg-1 m-2'),
 ('millifarad', ['millifarad', 'mF'], ['mF'], '1e-3', 's4 A2 kg-1 m-2'),
 ('microfarad', ['microfarad', 'uF'], ['uF'], '1e-6', 's4 A2 kg-1 m-2'),
 ('nanofarad', ['nanofarad', 'nF'], ['nF'], '1e-9', 's4 A2 kg-1 m-2'),
 ('picofarad', ['picofarad', 'pF'], ['pF'], '1e-12', 's4 A2 kg-1 m-2'),
 ('femtofarad', ['femtofarad', 'fF'], ['fF'], '1e-15', 's4 A2 kg-1 m-2'),
 ('ohm', ['ohm', 'ohms', 'Ohm'], ['ohm', 'Ohm'], '1', 'kg m2 s-3 A-2'),
 ('kiloohm', ['kiloohm', 'kOhm', 'kohm', 'kiloohms'], ['kOhm'], '1e3', 'kg m2 s-3 A-2'),
 ('megaohm', ['megaohm', 'MOhm', 'Mohm', 'megaohms'], ['MOhm'], '1e6', 'kg m2 s-3 A-2'),
 ('siemens', ['siemens', 'S'], ['S', 'siemens'], '1', 'kg-1 m-2 s3 A2'),
 ('millisiemens', ['millisiemens', 'mS'], ['mS', 'millisiemens'], '1e-3', 'kg-1 m-2 s3 A2'),
 ('microsiemens', ['microsiemens', 'uS'], ['uS', 'microsiemens'], '1e-6', 'kg-1 m-2 s3 A2'),
 ('nanosiemens', ['nanosiemens', 'nS'], ['nS', 'nanosiemens'], '1e-9', 'kg-1 m-2 s3 A2'),
 ('picosiemens', ['picosiemens', 'pS'], ['pS', 'picosiemens'], '1e-12', 'kg-1 m-2 s3 A2'),
 ('weber', ['weber', 'Wb', 'webers'], ['Wb', 'weber'], '1', 'kg m2 s-2 A-1'),
 ('tesla', ['tesla', 'T', 'teslas'], ['T', 'tesla'], '1', 'kg s-2 A-1'),
 ('henry', ['henry', 'H'], ['H', 'henry'], '1', 'kg m2 s-2 A-2'),
 ('abfarad', ['abfarad', 'abfarads'], ['abfarad'], '1e9', 's4 A2 kg-1 m-2'),
 ('abhenry', ['abhenry'], ['abhenry'], '1e-9', 'kg m2 s-2 A-2'),
 ('abmho', ['abmho'], ['abmho'], '1e9', 'kg-1 m-2 s3 A2'),
 ('abohm', ['abohm'], ['abohm'], '1e-9', 'kg m2 s-3 A-2'),
 ('abvolt', ['abvolt', 'abvolts'], ['abvolt'], '1e-8', 'kg m2 s-3 A-1'),
 ('elementary_charge', ['elementary_charge', 'e'], ['e', 'elementary_charge'], '1.602176487e-19', 's A'),
 ('chemical_faraday', ['chemical_faraday'], ['chemical_faraday'], '9.64957e4', 's A'),
 ('physical_faraday', ['physical_faraday'], ['physical_faraday'], '9.65219e4', 's A'),
 ('faraday', ['faraday', 'faradays'], ['faraday', 'C12_faraday'], '96485.3399', 's A'),
 ('gamma', ['gamma'], ['gamma'], '1e-9', 'kg s-2 A-1'),
 ('gauss', ['gauss', 'G'], ['gauss'], '1e-4', 'kg s-2 A-1'),
 ('maxwell', ['maxwell', 'Mx', 'maxwells'], ['maxwell'], '1e-8', 'kg m2 s-2 A-1'),
 ('oersted', ['oersted', 'Oe', 'oersteds'], ['Oe', 'oersted'], '1000/(4*PI)', 'A m-1'),
 ('statfarad', ['statfarad', 'stF', 'statfarads', 'statF'], ['statfarad', 'statF', 'stF'], '1.112650e-12', 's4 A2 kg-1 m-2'),
 ('stathenry', ['stathenry', 'stH', 'statH'], ['stathenry', 'statH', 'stH'], '8.987554e11', 'kg m2 s-2 A-2'),
 ('statmho', ['statmho', 'stS'], ['statmho', 'statS', 'stS'], '1.112650e-12', 'kg-1 m-2 s3 A2'),
 ('statohm', ['statohm', 'statohms'], ['statohm'], '8.987554e11', 'kg m2 s-3 A-2'),
 ('statvolt', ['statvolt', 'stV', 'statvolts', 'statV'], ['statvolt', 'statV', 'stV'], '299.7925', 'kg m2 s-3 A-1'),
 ('unit_pole', ['unit_pole'], ['unit_pole'], '1.256637e-7', 'kg m2 s-2 A-1'),
 ('magnetic_constant', ['magnetic_constant', 'mu_0', 'vacuum_permeability'], ['vacuum_permeability', 'mu_0', 'magnetic_constant'], '4*PI*1e-7', 'kg m s-2 A-2'),
 ('electric_constant', ['electric_constant', 'epsilon_0', 'vacuum_permittivity'], ['vacuum_permittivity', 'epsilon_0', 'electric_constant'], '1/(4*PI*1e-7*299792458**2)', 'kg-1 m-3 s4 A2'),
 ('characteristic_impedance_of_vacuum', ['characteristic_impedance_of_vacuum', 'Z_0', 'impedence_of_free_space'], ['Z_0', 'impedence_of_free_space', 'characteristic_impedance_of_vacuum'], '4*PI*1e-7*299792458', 'kg m2 s-3 A-2'),
 ('candela', ['candela', 'cd', 'candle', 'candles', 'candelas'], ['cd', 'candle', 'candela'], '1', 'cd'),
 ('hertz', ['hertz', 'Hz'], ['Hz', 'hertz', 'rps'], '1', 's-1'),
 ('kilohertz', ['kilohertz', 'kHz'], ['kHz', 'kilohertz'], '1e3', 's-1'),
 ('megahertz', ['megahertz', 'MHz'], ['MHz', 'megahertz'], '1e6', 's-1'),
 ('gigahertz', ['gigahertz', 'GHz'], ['GHz', 'gigahertz'], '1e9', 's-1'),
 ('revolutions_per_minute', ['revolutions_per_minute', 'rpm'], ['rpm', 'revolutions_per_minute'], '2*PI/60', 's-1'),
 ('counts_per_second', ['counts_per_second'], ['cps'], '1', 's-1'),
 ('Kelvin', ['Kelvin', 'K', 'degK', 'kelvin'], ['K', 'degK', 'kelvin', 'Kelvin'], '1', 'K'),
 ('yottakelvin', ['yottakelvin', 'YK'], ['YK'], '1e24', 'K'),
 ('zettakelvin', ['zettakelvin', 'ZK'], ['ZK'], '1e21', 'K'),
 ('exakelvin', ['exakelvin', 'EK'], ['EK'], '1e18', 'K'),
 ('petakelvin', ['petakelvin', 'PK'], ['PK'], '1e15', 'K'),
 ('terakelvin', ['terakelvin', 'TK'], ['TK'], '1e12', 'K'),
 ('gigakelvin', ['gigakelvin', 'GK'], ['GK'], '1e9', 'K'),
 ('megakelvin', ['megakelvin', 'MK'], ['MK'], '1e6', 'K'),
 ('kilokelvin', ['kilokelvin', 'kK'], ['kK'], '1e3', 'K'),
 ('hectokelvin', ['hectokelvin', 'hK'], ['hK'], '1e2', 'K'),
 ('dekakelvin', ['dekakelvin', 'daK'], ['daK'], '10', 'K'),
 ('decikelvin', ['decikelvin', 'dK'], ['dK'], '0.1', 'K'),
 ('centikelvin', ['centikelvin', 'cK'], ['cK'], '0.01', 'K'),
 ('millikelvin', ['millikelvin', 'mK'], ['mK'], '1e-3', 'K'),
 ('microkelvin', ['microkelvin', 'uK'], ['uK'], '1e-6', 'K'),
 ('nanokelvin', ['nanokelvin', 'nK'], ['nK'], '1e-9', 'K'),
 ('picokelvin', ['picokelvin', 'pK'], ['pK'], '1e-12', 'K'),
 ('femtokelvin', ['femtokelvin', 'fK'], ['fK'], '1e-15', 'K'),
 ('attokelvin', ['attokelvin', 'aK'], ['aK'], '1e-18', 'K'),
 ('zeptokelvin', ['zeptokelvin', 'zK'], ['zK'], '1e-21', 'K'),
 ('yoctokelvin', ['yoctokelvin', 'yK'], ['yK'], '1e-24', 'K'),
 ('Rankine', ['Rankine', 'degR', 'rankine'], ['degR', 'rankine', 'Rankine'], '5/9', 'K'),
 ('Celsius', ['Celsius', 'degC', 'celsius'], ['degC', 'celsius', 'Celsius'], '1', 'K'),
 ('Fahrenheit', ['Fahrenheit', 'degF', 'fahrenheit'], ['degF', 'fahrenheit', 'Fahrenheit'], '5/9', 'K'),
 ('watt', ['watt', 'W', 'watts', 'volt_ampere', 'volt_amperes', 'VA'], ['W', 'watt', 'volt_ampere'], '1', 'kg m2 s-3'),
 ('milliwatt', ['milliwatt', 'mW', 'milliwatts'], ['mW', 'milliwatt'], '1e-3', 'kg m2 s-3'),
 ('kilowatt', ['kilowatt', 'kW', 'kilowatts'], ['kW', 'kilowatt'], '1e3', 'kg m2 s-3'),
 ('megawatt', ['megawatt', 'MW', 'megawatts'], ['MW', 'megawatt'], '1e6', 'kg m2 s-3'),
 ('horsepower', ['horsepower', 'hp', 'UK_horsepower', 'British_horsepower'], ['hp', 'horsepower', 'UK_horsepower', 'British_horsepower'], '33000*0.3048*0.45359237*9.80665/60', 'kg m2 s-3'),
 ('boiler_horsepower', ['boiler_horsepower'], ['boiler_horsepower'], '33475*1055.05585262/3600', 'kg m2 s-3'),
 ('metric_horsepower', ['metric_horsepower'], ['metric_horsepower'], '75*9.80665', 'kg m2 s-3'),
 ('electric_horsepower', ['electric_horsepower'], ['electric_horsepower'], '746', 'kg m2 s-3'),
 ('water_horsepower', ['water_horsepower'], ['water_horsepower'], '746.043', 'kg m2 s-3'),
 ('refrigeration_ton', ['refrigeration_ton', 'ton_of_refrigeration'], ['refrigeration_ton', 'ton_of_refrigeration'], '12000*1055.05585262/3600', 'kg m2 s-3'),
 ('RSI', ['RSI'], ['RSI'], '1', 'kg-1 s3 K'),
 ('clo', ['clo', 'clos'], ['clo', 'clos'], '0.155', 'kg-1 s3 K'),
 ('R_value', ['R_value'], ['R_value'], '0.3048**2*(5/9)*3600/1055.05585262', 'kg-1 s3 K'),
 ('bit', ['bit', 'bits'], ['bit'], '1', 'bit'),
 ('byte', ['byte', 'B', 'bytes', 'o', 'octet', 'octets'], ['B', 'byte', 'o', 'octet'], '8', 'bit'),
 ('kilobyte', ['kilobyte', 'kB', 'kilobytes', 'kilooctet', 'kilooctets'], ['kB', 'kilobyte', 'ko'], '8e3', 'bit'),
 ('megabyte', ['megabyte', 'MB', 'megabytes', 'megaoctet', 'megaoctets'], ['MB', 'megabyte', 'Mo'], '8e6', 'bit'),
 ('gigabyte', ['gigabyte', 'GB', 'gigabytes', 'gigaoctet', 'gigaoctets'], ['GB', 'gigabyte', 'Go'], '8e9', 'bit'),
 ('terabyte', ['terabyte', 'TB', 'terabytes', 'teraoctet', 'teraoctets'], ['TB', 'terabyte', 'To'], '8e12', 'bit'),
 ('petabyte', ['petabyte', 'PB', 'petabytes', 'petaoctet', 'petaoctets'], ['PB', 'petabyte', 'Po'], '8e15', 'bit'),
 ('exabyte', ['exabyte', 'EB', 'exabytes', 'exaoctet', 'exaoctets'], ['EB', 'exabyte', 'Eo'], '8e18', 'bit'),
 ('zettabyte', ['zettabyte', 'ZB', 'zettabytes', 'zettaoctet', 'zettaoctets'], ['ZB', 'zettabyte', 'Zo'], '8e21', 'bit'),
 ('yottabyte', ['yottabyte', 'YB', 'yottabytes', 'yottaoctet', 'yottaoctets'], ['YB', 'yottabyte', 'Yo'], '8e24', 'bit'),
 ('baud', ['baud', 'Bd'], ['Bd', 'baud', 'bps'], '1', 'bit s-1'),
 ('kibibyte', ['kibibyte', 'KiB', 'kibibytes', 'kibioctet', 'kibioctets'], ['KiB', 'kibibyte', 'Kio'], '8*1024', 'bit'),
 ('mebibyte', ['mebibyte', 'MiB', 'mebibytes', 'mebioctet', 'mebioctets'], ['MiB', 'mebibyte', 'Mio'], '8*1024**2', 'bit'),
 ('gibibyte', ['gibibyte', 'GiB', 'gibibytes', 'gibioctet', 'gibioctets'], ['GiB', 'gibibyte', 'Gio'], '8*1024**3', 'bit'),
 ('tebibyte', ['tebibyte', 'TiB', 'tebibytes', 'tebioctet', 'tebioctets'], ['TiB', 'tebibyte', 'Tio'], '8*1024**4', 'bit'),
 ('pebibyte', ['pebibyte', 'PiB', 'pebibytes', 'pebioctet', 'pebioctets'], ['PiB', 'pebibyte', 'Pio'], '8*1024**5', 'bit'),
 ('exbibyte', ['exbibyte', 'EiB', 'exbibytes', 'exbioctet', 'exbioctets'], ['EiB', 'exbibyte', 'Eio'], '8*1024**6', 'bit'),
 ('zebibyte', ['zebibyte', 'ZiB', 'zebibytes', 'zebioctet', 'zebioctets'], ['ZiB', 'zebibyte', 'Zio'], '8*1024**7', 'bit'),
 ('yobibyte', ['yobibyte', 'YiB', 'yobibytes', 'yobioctet', 'yobioctets'], ['YiB', 'yobibyte', 'Yio'], '8*1024**8', 'bit'),
 ('conventional_mercury', ['conventional_mercury'], ['Hg', 'mercury', 'conventional_mercury'], '13595.10*9.80665', 'kg m-2 s-2'),
 ('mercury_60F', ['mercury_60F'], ['mercury_60F'], '13556.8*9.80665', 'kg m-2 s-2'),
 ('H2O', ['H2O'], ['H2O', 'h2o', 'water', 'conventional_water'], '1000*9.80665', 'kg m-2 s-2'),
 ('water_4C', ['water_4C'], ['water_4C', 'water_39F'], '999.972*9.80665', 'kg m-2 s-2'),
 ('water_60F', ['water_60F'], ['water_60F'], '999.001*9.80665', 'kg m-2 s-2'),
 ('pascal', ['pascal', 'Pa', 'pascals'], ['Pa', 'pascal'], '1', 'kg m-1 s-2'),
 ('hectopascal', ['hectopascal', 'hPa'], ['hPa', 'hectopascal'], '100', 'kg m-1 s-2'),
 ('kilopascal', ['kilopascal', 'kPa', 'kilopascals'], ['kPa', 'kilopascal'], '1e3', 'kg m-1 s-2'),
 ('megapascal', ['megapascal', 'MPa', 'megapascals'], ['MPa', 'megapascal'], '1e6', 'kg m-1 s-2'),
 ('gigapascal', ['gigapascal', 'GPa', 'gigapascals'], ['GPa', 'gigapascal'], '1e9', 'kg m-1 s-2'),
 ('bar', ['bar', 'bars'], ['bar'], '1e5', 'kg m-1 s-2'),
 ('millibar', ['millibar', 'mbar', 'millibars'], ['mbar', 'millibar'], '100', 'kg m-1 s-2'),
 ('kilobar', ['kilobar', 'kbar', 'kilobars'], ['kbar', 'kilobar'], '1e8', 'kg m-1 s-2'),
 ('megabar', ['megabar', 'Mbar', 'megabars'], ['Mbar', 'megabar'], '1e11', 'kg m-1 s-2'),
 ('gigabar', ['gigabar', 'Gbar', 'gigabars'], ['Gbar', 'gigabar'], '1e14', 'kg m-1 s-2'),
 ('standard_atmosphere', ['standard_atmosphere', 'atm', 'atmosphere', 'atmospheres', 'standard_atmospheres'], ['atm', 'atmosphere', 'standard_atmosphere'], '101325', 'kg m-1 s-2'),
 ('technical_atmosphere', ['technical_atmosphere', 'at', 'technical_atmospheres'], ['at', 'technical_atmosphere'], '98066.5', 'kg m-1 s-2'),
 ('torr', ['torr'], ['torr'], '101325/760', 'kg m-1 s-2'),
 ('pound_force_per_square_inch', ['pound_force_per_square_inch', 'psi'], ['psi', 'pound_force_per_square_inch'], '0.45359237*9.80665/0.0254**2', 'kg m-1 s-2'),
 ('kip_per_square_inch', ['kip_per_square_inch', 'ksi'], ['ksi', 'kip_per_square_inch'], '1000*0.45359237*9.80665/0.0254**2', 'kg m-1 s-2'),
 ('barye', ['barye', 'Ba', 'barie', 'baries', 'baryes', 'barad', 'barads', 'barrie', 'baryd', 'baryed'], ['barye', 'barie', 'barad', 'barrie', 'baryd'], '0.1', 'kg m-1 s-2'),
 ('millimeter_Hg', ['millimeter_Hg', 'mmHg', 'mm_Hg', 'millimeter_Hg_0C'], ['mmHg', 'mm_Hg', 'millimeter_Hg', 'millimeter_Hg_0C'], '13595.10*9.80665e-3', 'kg m-1 s-2'),
 ('cmHg', ['cmHg', 'cm_Hg', 'centimeter_Hg'], ['cmHg', 'cm_Hg', 'centimeter_Hg'], '13595.10*9.80665e-2', 'kg m-1 s-2'),
 ('inHg', ['inHg', 'in_Hg', 'inch_Hg', 'inch_Hg_32F'], ['inHg', 'in_Hg', 'inch_Hg', 'inch_Hg_32F'], '13595.10*9.80665*0.0254', 'kg m-1 s-2'),
 ('inch_Hg_60F', ['inch_Hg_60F'], ['inch_Hg_60F'], '13556.8*9.80665*0.0254', 'kg m-1 s-2'),
 ('inch_H2O_39F', ['inch_H2O_39F'], ['inch_H2O_39F'], '999.972*9.80665*0.0254', 'kg m-1 s-2'),
 ('inch_H2O_60F', ['inch_H2O_60F'], ['inch_H2O_60F'], '999.001*9.80665*0.0254', 'kg m-1 s-2'),
 ('footH2O', ['footH2O'], ['footH2O'], '9806.65*0.3048', 'kg m-1 s-2'),
 ('cmH2O', ['cmH2O'], ['cmH2O'], '98.0665', 'kg m-1 s-2'),
 ('foot_H2O', ['foot_H2O', 'ftH2O'], ['foot_H2O', 'ftH2O'], '9806.65*0.3048', 'kg m-1 s-2'),
 ('becquerel', ['becquerel', 'Bq', 'becquerels'], ['Bq', 'becquerel'], '1', 's-1'),
 ('curie', ['curie', 'Ci', 'curies'], ['Ci', 'curie'], '3.7e10', 's-1'),
 ('rutherford', ['rutherford', 'Rd', 'rutherfords'], ['rd', 'rutherford'], '1e6', 's-1'),
 ('gray', ['gray', 'Gy', 'grays', 'Sv', 'sievert', 'sieverts'], ['Gy', 'gray', 'Sv', 'sievert'], '1', 'm2 s-2'),
 ('rem', ['rem', 'rems'], ['rem'], '0.01', 'm2 s-2'),
 ('rads', ['rads'], ['rads'], '0.01', 'm2 s-2'),
 ('roentgen', ['roentgen', 'R', 'roentgens'], ['R', 'roentgen'], '2.58e-4', 's A kg-1'),
 ('poise', ['poise', 'P'], ['P', 'poise'], '0.1', 'kg m-1 s-1'),
 ('centipoise', ['centipoise', 'cP'], ['cP', 'centipoise'], '1e-3', 'kg m-1 s-1'),
 ('stokes', ['stokes', 'St'], ['St', 'stokes'], '1e-4', 'm2 s-1'),
 ('rhe', ['rhe'], ['rhe'], '10', 'kg-1 m s'),
 ('(pc/cm**3)', [], ['pc_per_cc'], '3.08568025e22', 'm-2'),
]
