# Names under which the library offers its constants and the NIST entry each denotes.
ROWS = [
 ('fine_structure_constant', 'alpha', ['alpha', 'fine_structure_constant'], 'fine-structure constant'),
 ('alpha_particle_mass', 'm_alpha', ['alpha_particle_mass', 'm_alpha'], 'alpha particle mass'),
 ('alpha_particle_mass_energy_equivalent', '(m_alpha*c**2)', ['alpha_particle_mass_energy_equivalent'], 'alpha particle mass energy equivalent'),
 ('alpha_particle_mass_energy_equivalent_in_MeV', 'alpha_particle_mass_energy_equivalent_in_MeV', ['alpha_particle_mass_energy_equivalent_in_MeV'], 'alpha particle mass energy equivalent in MeV'),
 ('alpha_particle_mass_in_u', 'alpha_particle_mass_in_u', ['alpha_particle_mass_in_u'], 'alpha particle mass in u'),
 ('alpha_particle_molar_mass', 'M_alpha', ['alpha_particle_molar_mass'], 'alpha particle molar mass'),
 ('alpha_particle_electron_mass_ratio', '(m_alpha/m_e)', ['alpha_particle_electron_mass_ratio'], 'alpha particle-electron mass ratio'),
 ('alpha_particle_proton_mass_ratio', '(m_alpha/m_p)', ['alpha_particle_proton_mass_ratio'], 'alpha particle-proton mass ratio'),
 ('astronomical_unit', 'au', ['astronomical_unit', 'au'], None),
 ('Newtonian_constant_of_gravitation', 'G', ['G', 'Newtonian_constant_of_gravitation'], 'Newtonian constant of gravitation'),
 ('atomic_mass_constant', 'm_u', ['amu', 'atomic_mass_constant'], 'atomic mass constant'),
 ('atomic_unit_of_1st_hyperpolarizability', '(e**3*a_0**3/E_h**2)', ['atomic_unit_of_1st_hyperpolarizability'], 'atomic unit of 1st hyperpolarizability'),
 ('atomic_unit_of_2nd_hyperpolarizability', '(e**4*a_0**4/E_h**3)', ['atomic_unit_of_2nd_hyperpolarizability'], 'atomic unit of 2nd hyperpolarizability'),
 ('Planck_constant_over_2_pi', '(h/(2*pi))', ['Planck_constant_over_2_pi', 'hbar'], 'Planck constant over 2 pi'),
 ('atomic_unit_of_action', 'hbar', ['atomic_unit_of_action'], 'atomic unit of action'),
 ('atomic_unit_of_charge', 'e', ['atomic_unit_of_charge'], 'atomic unit of charge'),
 ('atomic_unit_of_charge_density', '(e/a_0**3)', ['atomic_unit_of_charge_density'], 'atomic unit of charge density'),
 ('atomic_unit_of_current', '(e*E_h/hbar)', ['atomic_unit_of_current'], 'atomic unit of current'),
 ('atomic_unit_of_electric_dipole_moment', '(e*a_0)', ['atomic_unit_of_electric_dipole_moment'], 'atomic unit of electric dipole moment'),
 ('atomic_unit_of_electric_field', '(E_h/(e*a_0))', ['atomic_unit_of_electric_field'], 'atomic unit of electric field'),
 ('atomic_unit_of_electric_field_gradient', '(E_h/(e*a_0**2))', ['atomic_unit_of_electric_field_gradient'], 'atomic unit of electric field gradient'),
 ('atomic_unit_of_electric_polarizability', '(e**2*a_0**2/E_h)', ['atomic_unit_of_electric_polarizability'], 'atomic unit of electric polarizability'),
 ('atomic_unit_of_electric_potential', '(E_h/e)', ['atomic_unit_of_electric_potential'], 'atomic unit of electric potential'),
 ('atomic_unit_of_electric_quadrupole_moment', '(e*a_0**2)', ['atomic_unit_of_electric_quadrupole_moment'], 'atomic unit of electric quadrupole moment'),
 ('atomic_unit_of_energy', 'atomic_unit_of_energy', ['atomic_unit_of_energy'], 'atomic unit of energy'),
 ('atomic_unit_of_force', '(E_h/a_0)', ['atomic_unit_of_force'], 'atomic unit of force'),
 ('atomic_unit_of_length', 'a_0', ['a_0', 'atomic_unit_of_length'], 'atomic unit of length'),
 ('Bohr_radius', 'a_0', ['Bohr_radius'], 'Bohr radius'),
 ('atomic_unit_of_magnetic_dipole_moment', '(hbar*e/m_e)', ['atomic_unit_of_magnetic_dipole_moment'], 'atomic unit of magnetic dipole moment'),
 ('atomic_unit_of_magnetic_flux_density', '(hbar/(e*a_0**2))', ['atomic_unit_of_magnetic_flux_density'], 'atomic unit of magnetic flux density'),
 ('atomic_unit_of_magnetizability', '(e**2*a_0**2/m_e)', ['atomic_unit_of_magnetizability'], 'atomic unit of magnetizability'),
 ('electron_mass', 'm_e', ['electron_mass', 'm_e'], 'electron mass'),
 ('atomic_unit_of_mass', 'm_e', ['atomic_unit_of_mass'], 'atomic unit of mass'),
 ('atomic_unit_of_momentum', '(hbar/a_0)', ['atomic_unit_of_momentum'], 'atomic unit of momentum'),
 ('atomic_unit_of_permittivity', '(e**2/(a_0*E_h))', ['atomic_unit_of_permittivity'], 'atomic unit of permittivity'),
 ('atomic_unit_of_time', '(hbar/E_h)', ['atomic_unit_of_time'], 'atomic unit of time'),
 ('atomic_unit_of_velocity', '(a_0*E_h/hbar)', ['atomic_unit_of_velocity'], 'atomic unit of velocity'),
 ('Hartree_energy', 'E_h', ['E_h', 'Hartree_energy'], 'Hartree energy'),
 ('unified_atomic_mass_unit', 'u', ['u', 'unified_atomic_mass_unit'], 'unified atomic mass unit'),
 ('molar_mass_of_carbon_12', 'M_C12', ['molar_mass_of_carbon_12'], 'molar mass of carbon-12'),
 ('atomic_mass_constant_energy_equivalent', '(m_u*c**2)', ['atomic_mass_constant_energy_equivalent'], 'atomic mass constant energy equivalent'),
 ('atomic_mass_constant_energy_equivalent_in_MeV', 'atomic_mass_constant_energy_equivalent_in_MeV', ['atomic_mass_constant_energy_equivalent_in_MeV'], 'atomic mass constant energy equivalent in MeV'),
 ('Hartree_energy_in_eV', 'Hartree_energy_in_eV', ['Hartree_energy_in_eV'], 'Hartree energy in eV'),
 ('atomic_mass_unit_electron_volt_relationship', 'atomic_mass_unit_electron_volt_relationship', ['atomic_mass_unit_electron_volt_relationship'], 'atomic mass unit-electron volt relationship'),
 ('atomic_mass_unit_hartree_relationship', 'atomic_mass_unit_hartree_relationship', ['atomic_mass_unit_hartree_relationship'], 'atomic mass unit-hartree relationship'),
 ('atomic_mass_unit_hertz_relationship', 'atomic_mass_unit_hertz_relationship', ['atomic_mass_unit_hertz_relationship'], 'atomic mass unit-hertz relationship'),
 ('atomic_mass_unit_inverse_meter_relationship', 'atomic_mass_unit_inverse_meter_relationship', ['atomic_mass_unit_inverse_meter_relationship'], 'atomic mass unit-inverse meter relationship'),
 ('atomic_mass_unit_joule_relationship', '(u*c**2)', ['atomic_mass_unit_joule_relationship'], 'atomic mass unit-joule relationship'),
 ('atomic_mass_unit_kelvin_relationship', 'atomic_mass_unit_kelvin_relationship', ['atomic_mass_unit_kelvin_relationship'], 'atomic mass unit-kelvin relationship'),
 ('atomic_mass_unit_kilogram_relationship', 'atomic_mass_unit_kilogram_relationship', ['atomic_mass_unit_kilogram_relationship'], 'atomic mass unit-kilogram relationship'),
 ('hartree_atomic_mass_unit_relationship', 'hartree_atomic_mass_unit_relationship', ['hartree_atomic_mass_unit_relationship'], 'hartree-atomic mass unit relationship'),
 ('hartree_electron_volt_relationship', 'hartree_electron_volt_relationship', ['hartree_electron_volt_relationship'], 'hartree-electron volt relationship'),
 ('hartree_hertz_relationship', 'hartree_hertz_relationship', ['hartree_hertz_relationship'], 'hartree-hertz relationship'),
 ('hartree_inverse_meter_relationship', 'hartree_inverse_meter_relationship', ['hartree_inverse_meter_relationship'], 'hartree-inverse meter relationship'),
 ('hartree_joule_relationship', 'hartree_joule_relationship', ['hartree_joule_relationship'], 'hartree-joule relationship'),
 ('hartree_kelvin_relationship', 'hartree_kelvin_relationship', ['hartree_kelvin_relationship'], 'hartree-kelvin relationship'),
 ('hartree_kilogram_relationship', 'hartree_kilogram_relationship', ['hartree_kilogram_relationship'], 'hartree-kilogram relationship'),
 ('hertz_atomic_mass_unit_relationship', 'hertz_atomic_mass_unit_relationship', ['hertz_atomic_mass_unit_relationship'], 'hertz-atomic mass unit relationship'),
 ('hertz_hartree_relationship', 'hertz_hartree_relationship', ['hertz_hartree_relationship'], 'hertz-hartree relationship'),
 ('inverse_meter_atomic_mass_unit_relationship', 'inverse_meter_atomic_mass_unit_relationship', ['inverse_meter_atomic_mass_unit_relationship'], 'inverse meter-atomic mass unit relationship'),
 ('inverse_meter_hartree_relationship', 'inverse_meter_hartree_relationship', ['inverse_meter_hartree_relationship'], 'inverse meter-hartree relationship'),
 ('joule_atomic_mass_unit_relationship', 'joule_atomic_mass_unit_relationship', ['joule_atomic_mass_unit_relationship'], 'joule-atomic mass unit relationship'),
 ('joule_hartree_relationship', 'joule_hartree_relationship', ['joule_hartree_relationship'], 'joule-hartree relationship'),
 ('kelvin_atomic_mass_unit_relationship', 'kelvin_atomic_mass_unit_relationship', ['kelvin_atomic_mass_unit_relationship'], 'kelvin-atomic mass unit relationship'),
 ('kelvin_hartree_relationship', 'kelvin_hartree_relationship', ['kelvin_hartree_relationship'], 'kelvin-hartree relationship'),
 ('kilogram_atomic_mass_unit_relationship', 'kilogram_atomic_mass_unit_relationship', ['kilogram_atomic_mass_unit_relationship'], 'kilogram-atomic mass unit relationship'),
 ('kilogram_hartree_relationship', 'kilogram_hartree_relationship', ['kilogram_hartree_relationship'], 'kilogram-hartree relationship'),
 ('deuteron_rms_charge_radius', 'R_d', ['R_d', 'deuteron_rms_charge_radius'], 'deuteron rms charge radius'),
 ('deuteron_mass', 'm_d', ['deuteron_mass', 'm_d'], 'deuteron mass'),
 ('deuteron_g_factor', 'g_d', ['deuteron_g_factor', 'g_d'], 'deuteron g factor'),
 ('deuteron_magnetic_moment', 'mu_d', ['deuteron_magnetic_moment', 'mu_d'], 'deuteron magnetic moment'),
 ('deuteron_mass_energy_equivalent', '(m_d*c**2)', ['deuteron_mass_energy_equivalent'], 'deuteron mass energy equivalent'),
 ('deuteron_mass_energy_equivalent_in_MeV', 'deuteron_mass_energy_equivalent_in_MeV', ['deuteron_mass_energy_equivalent_in_MeV'], 'deuteron mass energy equivalent in MeV'),
 ('deuteron_mass_in_u', 'deuteron_mass_in_u', ['deuteron_mass_in_u'], 'deuteron mass in u'),
 ('deuteron_molar_mass', 'M_d', ['deuteron_molar_mass'], 'deuteron molar mass'),
 ('deuteron_electron_mass_ratio', '(m_d/m_e)', ['deuteron_electron_mass_ratio'], 'deuteron-electron mass ratio'),
 ('deuteron_proton_mass_ratio', '(m_d/m_p)', ['deuteron_proton_mass_ratio'], 'deuteron-proton mass ratio'),
 ('deuteron_electron_magnetic_moment_ratio', '(mu_d/mu_e)', ['deuteron_electron_magnetic_moment_ratio'], 'deuteron-electron magnetic moment ratio'),
 ('deuteron_magnetic_moment_to_Bohr_magneton_ratio', '(mu_d/mu_B)', ['deuteron_magnetic_moment_to_Bohr_magneton_ratio'], 'deuteron magnetic moment to Bohr magneton ratio'),
 ('deuteron_magnetic_moment_to_nuclear_magneton_ratio', '(mu_d/mu_N)', ['deuteron_magnetic_moment_to_nuclear_magneton_ratio'], 'deuteron magnetic moment to nuclear magneton ratio'),
 ('deuteron_neutron_magnetic_moment_ratio', '(mu_d/mu_n)', ['deuteron_neutron_magnetic_moment_ratio'], 'deuteron-neutron magnetic moment ratio'),
 ('deuteron_proton_magnetic_moment_ratio', '(mu_d/mu_p)', ['deuteron_proton_magnetic_moment_ratio'], 'deuteron-proton magnetic moment ratio'),
 ('characteristic_impedance_of_vacuum', 'Z_0', ['Z_0', 'characteristic_impedance_of_vacuum', 'impedence_of_free_space'], 'characteristic impedance of vacuum'),
 ('electric_constant', 'epsilon_0', ['electric_constant', 'epsilon_0', 'vacuum_permittivity'], 'electric constant'),
 ('magnetic_constant', 'mu_0', ['magnetic_constant', 'mu_0'], 'magnetic constant'),
 ('elementary_charge', 'e', ['e', 'elementary_charge'], 'elementary charge'),
 ('elementary_charge_over_h', 'e/h', ['elementary_charge_over_h'], 'elementary charge over h'),
 ('Faraday_constant', 'F', ['Faraday_constant'], 'Faraday constant'),
 ('classical_electron_radius', 'r_e', ['classical_electron_radius', 'r_e'], 'classical electron radius'),
 ('Compton_wavelength', 'lambda_C', ['Compton_wavelength', 'lambda_C'], 'Compton wavelength'),
 ('Compton_wavelength_over_2_pi', 'lambdabar_C', ['Compton_wavelength_over_2_pi'], 'Compton wavelength over 2 pi'),
 ('electron_charge_to_mass_quotient', '(-e/m_e)', ['electron_charge_to_mass_quotient'], 'electron charge to mass quotient'),
 ('electron_g_factor', 'g_e', ['electron_g_factor', 'g_e'], 'electron g factor'),
 ('electron_gyromagnetic_ratio', 'gamma_e', ['electron_gyromagnetic_ratio', 'gamma_e'], 'electron gyromagnetic ratio'),
 ('electron_gyromagnetic_ratio_over_2_pi', 'gamma_e/(2*pi)', ['electron_gyromagnetic_ratio_over_2_pi'], 'electron gyromagnetic ratio over 2 pi'),
 ('electron_magnetic_moment', 'mu_e', ['electron_magnetic_moment', 'mu_e'], 'electron magnetic moment'),
 ('electron_magnetic_moment_anomaly', 'a_e', ['a_e', 'electron_magnetic_moment_anomaly'], 'electron magnetic moment anomaly'),
 ('electron_volt', 'eV', ['eV', 'electron_volt'], 'electron volt'),
 ('Thomson_cross_section', 'sigma_e', ['Thomson_cross_section', 'sigma_e'], 'Thomson cross section'),
 ('Bohr_magneton', 'mu_B', ['Bohr_magneton', 'mu_B'], 'Bohr magneton'),
 ('Bohr_magneton_in_Hz_per_T', 'Bohr_magneton_in_Hz_per_T', ['Bohr_magneton_in_Hz_per_T'], 'Bohr magneton in Hz/T'),
 ('Bohr_magneton_in_inverse_meters_per_tesla', 'Bohr_magneton_in_inverse_meters_per_tesla', ['Bohr_magneton_in_inverse_meters_per_tesla'], 'Bohr magneton in inverse meters per tesla'),
 ('Bohr_magneton_in_K_per_T', 'Bohr_magneton_in_K_per_T', ['Bohr_magneton_in_K_per_T'], 'Bohr magneton in K/T'),
 ('electron_mass_energy_equivalent', '(m_e*c**2)', ['electron_mass_energy_equivalent'], 'electron mass energy equivalent'),
 ('electron_mass_energy_equivalent_in_MeV', 'electron_mass_energy_equivalent_in_MeV', ['electron_mass_energy_equivalent_in_MeV'], 'electron mass energy equivalent in MeV'),
 ('electron_mass_in_u', 'electron_mass_in_u', ['electron_mass_in_u'], 'electron mass in u'),
 ('electron_molar_mass', 'M_e', ['electron_molar_mass'], 'electron molar mass'),
 ('electron_deuteron_mass_ratio', '(m_e/m_d)', ['electron_deuteron_mass_ratio'], 'electron-deuteron mass ratio'),
 ('electron_muon_mass_ratio', '(m_e/m_mu)', ['electron_muon_mass_ratio'], 'electron-muon mass ratio'),
 ('electron_neutron_mass_ratio', '(m_e/m_n)', ['electron_neutron_mass_ratio'], 'electron-neutron mass ratio'),
 ('electron_proton_mass_ratio', '(m_e/m_p)', ['electron_proton_mass_ratio'], 'electron-proton mass ratio'),
 ('electron_tau_mass_ratio', '(m_e/m_tau)', ['electron_tau_mass_ratio'], 'electron-tau mass ratio'),
 ('electron_to_alpha_particle_mass_ratio', '(m_e/m_alpha)', ['electron_to_alpha_particle_mass_ratio'], 'electron to alpha particle mass ratio'),
 ('electron_deuteron_magnetic_moment_ratio', '(mu_e/mu_d)', ['electron_deuteron_magnetic_moment_ratio'], 'electron-deuteron magnetic moment ratio'),
 ('electron_magnetic_moment_to_Bohr_magneton_ratio', '(mu_e/mu_B)', ['electron_magnetic_moment_to_Bohr_magneton_ratio'], 'electron magnetic moment to Bohr magneton ratio'),
 ('electron_magnetic_moment_to_nuclear_magneton_ratio', '(mu_e/mu_N)', ['electron_magnetic_moment_to_nuclear_magneton_ratio'], 'electron magnetic moment to nuclear magneton ratio'),
 ('electron_muon_magnetic_moment_ratio', '(mu_e/mu_mu)', ['electron_muon_magnetic_moment_ratio'], 'electron-muon magnetic moment ratio'),
 ('electron_neutron_magnetic_moment_ratio', '(mu_e/mu_n)', ['electron_neutron_magnetic_moment_ratio'], 'electron-neutron magnetic moment ratio'),
 ('electron_proton_magnetic_moment_ratio', '(mu_e/mu_p)', ['electron_proton_magnetic_moment_ratio'], 'electron-proton magnetic moment ratio'),
 ('electron_to_shielded_helion_magnetic_moment_ratio', '(mu_e/muprime_h)', ['electron_to_shielded_helion_magnetic_moment_ratio'], 'electron to shielded helion magnetic moment ratio'),
 ('electron_to_shielded_proton_magnetic_moment_ratio', '(mu_e/muprime_p)', ['electron_to_shielded_proton_magnetic_moment_ratio'], 'electron to shielded proton magnetic moment ratio'),
 ('electron_volt_atomic_mass_unit_relationship', 'electron_volt_atomic_mass_unit_relationship', ['electron_volt_atomic_mass_unit_relationship'], 'electron volt-atomic mass unit relationship'),
 ('electron_volt_hartree_relationship', 'electron_volt_hartree_relationship', ['electron_volt_hartree_relationship'], 'electron volt-hartree relationship'),
 ('electron_volt_hertz_relationship', 'electron_volt_hertz_relationship', ['electron_volt_hertz_relationship'], 'electron volt-hertz relationship'),
 ('electron_volt_inverse_meter_relationship', 'electron_volt_inverse_meter_relationship', ['electron_volt_inverse_meter_relationship'], 'electron volt-inverse meter relationship'),
 ('electron_volt_joule_relationship', 'electron_volt_joule_relationship', ['electron_volt_joule_relationship'], 'electron volt-joule relationship'),
 ('electron_volt_kelvin_relationship', 'electron_volt_kelvin_relationship', ['electron_volt_kelvin_relationship'], 'electron volt-kelvin relationship'),
 ('electron_volt_kilogram_relationship', 'electron_volt_kilogram_relationship', ['electron_volt_kilogram_relationship'], 'electron volt-kilogram relationship'),
 ('hertz_electron_volt_relationship', 'hertz_electron_volt_relationship', ['hertz_electron_volt_relationship'], 'hertz-electron volt relationship'),
 ('inverse_meter_electron_volt_relationship', 'inverse_meter_electron_volt_relationship', ['inverse_meter_electron_volt_relationship'], 'inverse meter-electron volt relationship'),
 ('joule_electron_volt_relationship', 'joule_electron_volt_relationship', ['joule_electron_volt_relationship'], 'joule-electron volt relationship'),
 ('kelvin_electron_volt_relationship', 'kelvin_electron_volt_relationship', ['kelvin_electron_volt_relationship'], 'kelvin-electron volt relationship'),
 ('kilogram_electron_volt_relationship', 'kilogram_electron_volt_relationship', ['kilogram_electron_volt_relationship'], 'kilogram-electron volt relationship'),
 ('helion_mass', 'm_h', ['helion_mass', 'm_h'], 'helion mass'),
 ('shielded_helion_gyromagnetic_ratio', 'gammaprime_h', ['gamma_prime_h', 'shielded_helion_gyromagnetic_ratio'], 'shielded helion gyromagnetic ratio'),
 ('shielded_helion_gyromagnetic_ratio_over_2_pi', '(gammaprime_h/(2*pi))', ['shielded_helion_gyromagnetic_ratio_over_2_pi'], 'shielded helion gyromagnetic ratio over 2 pi'),
 ('shielded_helion_magnetic_moment', 'muprime_h', ['mu_prime_h', 'shielded_helion_magnetic_moment'], 'shielded helion magnetic moment'),
 ('helion_mass_energy_equivalent', '(m_h*c**2)', ['helion_mass_energy_equivalent'], 'helion mass energy equivalent'),
 ('helion_mass_energy_equivalent_in_MeV', 'helion_mass_energy_equivalent_in_MeV', ['helion_mass_energy_equivalent_in_MeV'], 'helion mass energy equivalent in MeV'),
 ('helion_mass_in_u', 'helion_mass_in_u', ['helion_mass_in_u'], 'helion mass in u'),
 ('helion_molar_mass', 'M_h', ['helion_molar_mass'], 'helion molar mass'),
 ('helion_electron_mass_ratio', '(m_h/m_e)', ['helion_electron_mass_ratio'], 'helion-electron mass ratio'),
 ('helion_proton_mass_ratio', '(m_h/m_p)', ['helion_proton_mass_ratio'], 'helion-proton mass ratio'),
 ('shielded_helion_to_proton_magnetic_moment_ratio', '(muprime_h/mu_p)', ['shielded_helion_to_proton_magnetic_moment_ratio'], 'shielded helion to proton magnetic moment ratio'),
 ('shielded_helion_magnetic_moment_to_Bohr_magneton_ratio', '(muprime_h/mu_B)', ['shielded_helion_magnetic_moment_to_Bohr_magneton_ratio'], 'shielded helion magnetic moment to Bohr magneton ratio'),
 ('shielded_helion_magnetic_moment_to_nuclear_magneton_ratio', '(muprime_h/mu_N)', ['shielded_helion_magnetic_moment_to_nuclear_magneton_ratio'], 'shielded helion magnetic moment to nuclear magneton ratio'),
 ('shielded_helion_to_shielded_proton_magnetic_moment_ratio', '(muprime_h/muprime_p)', ['shielded_helion_to_shielded_proton_magnetic_moment_ratio'], 'shielded helion to shielded proton magnetic moment ratio'),
 ('pi', 'pi', ['pi'], None),
 ('golden_ratio', 'golden_ratio', ['golden', 'golden_ratio'], None),
 ('muon_mass', 'm_mu', ['m_mu', 'muon_mass'], 'muon mass'),
 ('muon_Compton_wavelength', 'lambda_C_mu', ['lambda_C_mu', 'muon_Compton_wavelength'], 'muon Compton wavelength'),
 ('muon_Compton_wavelength_over_2_pi', 'lambdabar_C_mu', ['muon_Compton_wavelength_over_2_pi'], 'muon Compton wavelength over 2 pi'),
 ('muon_g_factor', 'g_mu', ['g_mu', 'muon_g_factor'], 'muon g factor'),
 ('muon_magnetic_moment', 'mu_mu', ['mu_mu', 'muon_magnetic_moment'], 'muon magnetic moment'),
 ('muon_magnetic_moment_anomaly', 'a_mu', ['a_mu', 'muon_magnetic_moment_anomaly'], 'muon magnetic moment anomaly'),
 ('muon_mass_energy_equivalent', '(m_mu*c**2)', ['muon_mass_energy_equivalent'], 'muon mass energy equivalent'),
 ('muon_mass_energy_equivalent_in_MeV', 'muon_mass_energy_equivalent_in_MeV', ['muon_mass_energy_equivalent_in_MeV'], 'muon mass energy equivalent in MeV'),
 ('muon_mass_in_u', 'muon_mass_in_u', ['muon_mass_in_u'], 'muon mass in u'),
 ('muon_molar_mass', 'M_mu', ['muon_molar_mass'], 'muon molar mass'),
 ('muon_electron_mass_ratio', '(m_mu/m_e)', ['muon_electron_mass_ratio'], 'muon-electron mass ratio'),
 ('muon_neutron_mass_ratio', '(m_mu/m_n)', ['muon_neutron_mass_ratio'], 'muon-neutron mass ratio'),
 ('muon_proton_mass_ratio', '(m_mu/m_p)', ['muon_proton_mass_ratio'], 'muon-proton mass ratio'),
 ('muon_tau_mass_ratio', '(m_mu/m_tau)', ['muon_tau_mass_ratio'], 'muon-tau mass ratio'),
 ('muon_magnetic_moment_to_Bohr_magneton_ratio', '(mu_mu/mu_B)', ['muon_magnetic_moment_to_Bohr_magneton_ratio'], 'muon magnetic moment to Bohr magneton ratio'),
 ('muon_magnetic_moment_to_nuclear_magneton_ratio', '(mu_mu/mu_N)', ['muon_magnetic_moment_to_nuclear_magneton_ratio'], 'muon magnetic moment to nuclear magneton ratio'),
 ('muon_proton_magnetic_moment_ratio', '(mu_mu/mu_p)', ['muon_proton_magnetic_moment_ratio'], 'muon-proton magnetic moment ratio'),
 ('natural_unit_of_action', 'hbar', ['natural_unit_of_action'], 'natural unit of action'),
 ('natural_unit_of_energy', '(m_e*c**2)', ['natural_unit_of_energy'], 'natural unit of energy'),
 ('natural_unit_of_length', 'lambdabar_C', ['natural_unit_of_length'], 'natural unit of length'),
 ('natural_unit_of_mass', 'm_e', ['natural_unit_of_mass'], 'natural unit of mass'),
 ('natural_unit_of_momentum', '(m_e*c)', ['natural_unit_of_momentum'], 'natural unit of momentum'),
 ('natural_unit_of_time', '(hbar/(m_e*c**2))', ['natural_unit_of_time'], 'natural unit of time'),
 ('natural_unit_of_velocity', 'c', ['natural_unit_of_velocity'], 'natural unit of velocity'),
 ('natural_unit_of_action_in_eV_s', 'natural_unit_of_action_in_eV_s', ['natural_unit_of_action_in_eV_s'], 'natural unit of action in eV s'),
 ('natural_unit_of_energy_in_MeV', 'natural_unit_of_energy_in_MeV', ['natural_unit_of_energy_in_MeV'], 'natural unit of energy in MeV'),
 ('natural_unit_of_momentum_in_MeV_per_c', 'natural_unit_of_momentum_in_MeV_per_c', ['natural_unit_of_momentum_in_MeV_per_c'], 'natural unit of momentum in MeV/c'),
 ('neutron_mass', 'm_n', ['m_n', 'neutron_mass'], 'neutron mass'),
 ('neutron_Compton_wavelength', 'lambda_C_n', ['lambda_C_n', 'neutron_Compton_wavelength'], 'neutron Compton wavelength'),
 ('neutron_Compton_wavelength_over_2_pi', 'lambdabar_C_n', ['neutron_Compton_wavelength_over_2_pi'], 'neutron Compton wavelength over 2 pi'),
 ('neutron_g_factor', 'g_n', ['g_n', 'neutron_g_factor'], 'neutron g factor'),
 ('neutron_gyromagnetic_ratio', 'gamma_n', ['gamma_n', 'neutron_gyromagnetic_ratio'], 'neutron gyromagnetic ratio'),
 ('neutron_gyromagnetic_ratio_over_2_pi', '(gamma_n/(2*pi))', ['neutron_gyromagnetic_ratio_over_2_pi'], 'neutron gyromagnetic ratio over 2 pi'),
 ('neutron_magnetic_moment', 'mu_n', ['mu_n', 'neutron_magnetic_moment'], 'neutron magnetic moment'),
 ('neutron_mass_energy_equivalent', '(m_n*c**2)', ['neutron_mass_energy_equivalent'], 'neutron mass energy equivalent'),
 ('neutron_mass_energy_equivalent_in_MeV', 'neutron_mass_energy_equivalent_in_MeV', ['neutron_mass_energy_equivalent_in_MeV'], 'neutron mass energy equivalent in MeV'),
 ('neutron_mass_in_u', 'neutron_mass_in_u', ['neutron_mass_in_u'], 'neutron mass in u'),
 ('neutron_molar_mass', 'M_n', ['neutron_molar_mass'], 'neutron molar mass'),
 ('neutron_electron_mass_ratio', '(m_n/m_e)', ['neutron_electron_mass_ratio'], 'neutron-electron mass ratio'),
 ('neutron_muon_mass_ratio', '(m_n/m_mu)', ['neutron_muon_mass_ratio'], 'neutron-muon mass ratio'),
 ('neutron_proton_mass_ratio', '(m_n/m_p)', ['neutron_proton_mass_ratio'], 'neutron-proton mass ratio'),
 ('neutron_tau_mass_ratio', '(m_n/m_tau)', ['neutron_tau_mass_ratio'], 'neutron-tau mass ratio'),
 ('neutron_electron_magnetic_moment_ratio', '(mu_n/mu_e)', ['neutron_electron_magnetic_moment_ratio'], 'neutron-electron magnetic moment ratio'),
 ('neutron_magnetic_moment_to_Bohr_magneton_ratio', '(mu_n/mu_B)', ['neutron_magnetic_moment_to_Bohr_magneton_ratio'], 'neutron magnetic moment to Bohr magneton ratio'),
 ('neutron_magnetic_moment_to_nuclear_magneton_ratio', '(mu_n/mu_N)', ['neutron_magnetic_moment_to_nuclear_magneton_ratio'], 'neutron magnetic moment to nuclear magneton ratio'),
 ('neutron_proton_magnetic_moment_ratio', '(mu_n/mu_p)', ['neutron_proton_magnetic_moment_ratio'], 'neutron-proton magnetic moment ratio'),
 ('neutron_to_shielded_proton_magnetic_moment_ratio', '(mu_n/muprime_p)', ['neutron_to_shielded_proton_magnetic_moment_ratio'], 'neutron to shielded proton magnetic moment ratio'),
 ('proton_mass', 'm_p', ['m_p', 'proton_mass'], 'proton mass'),
 ('proton_Compton_wavelength', 'lambda_C_p', ['lambda_C_p', 'proton_Compton_wavelength'], 'proton Compton wavelength'),
 ('proton_Compton_wavelength_over_2_pi', 'lambdabar_C_p', ['proton_Compton_wavelength_over_2_pi'], 'proton Compton wavelength over 2 pi'),
 ('proton_rms_charge_radius', 'R_p', ['R_p', 'proton_rms_charge_radius'], 'proton rms charge radius'),
 ('proton_charge_to_mass_quotient', '(e/m_p)', ['proton_charge_to_mass_quotient'], 'proton charge to mass quotient'),
 ('proton_g_factor', 'g_p', ['g_p', 'proton_g_factor'], 'proton g factor'),
 ('proton_gyromagnetic_ratio', 'gamma_p', ['gamma_p', 'proton_gyromagnetic_ratio'], 'proton gyromagnetic ratio'),
 ('proton_gyromagnetic_ratio_over_2_pi', '(gamma_p/(2*pi))', ['proton_gyromagnetic_ratio_over_2_pi'], 'proton gyromagnetic ratio over 2 pi'),
 ('proton_magnetic_moment', 'mu_p', ['mu_p', 'proton_magnetic_moment'], 'proton magnetic moment'),
 ('proton_magnetic_shielding_correction', 'sigmaprime_p', ['proton_magnetic_shielding_correction', 'sigma_prime_p'], 'proton magnetic shielding correction'),
 ('shielded_proton_gyromagnetic_ratio', 'gammaprime_p', ['gamma_prime_p', 'shielded_proton_gyromagnetic_ratio'], 'shielded proton gyromagnetic ratio'),
 ('shielded_proton_gyromagnetic_ratio_over_2_pi', '(gammaprime_p/(2*pi))', ['shielded_proton_gyromagnetic_ratio_over_2_pi'], 'shielded proton gyromagnetic ratio over 2 pi'),
 ('shielded_proton_magnetic_moment', 'muprime_p', ['mu_prime_p', 'shielded_proton_magnetic_moment'], 'shielded proton magnetic moment'),
 ('nuclear_magneton', 'mu_N', ['mu_N', 'nuclear_magneton'], 'nuclear magneton'),
 ('nuclear_magneton_in_eV_per_T', 'nuclear_magneton_in_eV_per_T', ['nuclear_magneton_in_eV_per_T'], 'nuclear magneton in eV/T'),
 ('nuclear_magneton_in_inverse_meters_per_tesla', 'nuclear_magneton_in_inverse_meters_per_tesla', ['nuclear_magneton_in_inverse_meters_per_tesla'], 'nuclear magneton in inverse meters per tesla'),
 ('nuclear_magneton_in_K_per_T', 'nuclear_magneton_in_K_per_T', ['nuclear_magneton_in_K_per_T'], 'nuclear magneton in K/T'),
 ('nuclear_magneton_in_MHz_per_T', 'nuclear_magneton_in_MHz_per_T', ['nuclear_magneton_in_MHz_per_T'], 'nuclear magneton in MHz/T'),
 ('proton_mass_energy_equivalent', '(m_p*c**2)', ['proton_mass_energy_equivalent'], 'proton mass energy equivalent'),
 ('proton_mass_energy_equivalent_in_MeV', 'proton_mass_energy_equivalent_in_MeV', ['proton_mass_energy_equivalent_in_MeV'], 'proton mass energy equivalent in MeV'),
 ('proton_mass_in_u', 'proton_mass_in_u', ['proton_mass_in_u'], 'proton mass in u'),
 ('proton_molar_mass', 'M_p', ['proton_molar_mass'], 'proton molar mass'),
 ('proton_electron_mass_ratio', '(m_p/m_e)', ['proton_electron_mass_ratio'], 'proton-electron mass ratio'),
 ('proton_muon_mass_ratio', '(m_p/m_mu)', ['proton_muon_mass_ratio'], 'proton-muon mass ratio'),
 ('proton_neutron_mass_ratio', '(m_p/m_n)', ['proton_neutron_mass_ratio'], 'proton-neutron mass ratio'),
 ('proton_tau_mass_ratio', '(m_p/m_tau)', ['proton_tau_mass_ratio'], 'proton-tau mass ratio'),
 ('proton_magnetic_moment_to_Bohr_magneton_ratio', '(mu_p/mu_B)', ['proton_magnetic_moment_to_Bohr_magneton_ratio'], 'proton magnetic moment to Bohr magneton ratio'),
 ('proton_magnetic_moment_to_nuclear_magneton_ratio', '(mu_p/mu_N)', ['proton_magnetic_moment_to_nuclear_magneton_ratio'], 'proton magnetic moment to nuclear magneton ratio'),
 ('proton_neutron_magnetic_moment_ratio', '(mu_p/mu_n)', ['proton_neutron_magnetic_moment_ratio'], 'proton-neutron magnetic moment ratio'),
 ('shielded_proton_magnetic_moment_to_Bohr_magneton_ratio', '(muprime_p/mu_B)', ['shielded_proton_magnetic_moment_to_Bohr_magneton_ratio'], 'shielded proton magnetic moment to Bohr magneton ratio'),
 ('shielded_proton_magnetic_moment_to_nuclear_magneton_ratio', '(muprime_p/mu_N)', ['shielded_proton_magnetic_moment_to_nuclear_magneton_ratio'], 'shielded proton magnetic moment to nuclear magneton ratio'),
 ('molar_Planck_constant', '(N_A*h)', ['molar_Planck_constant'], 'molar Planck constant'),
 ('molar_Planck_constant_times_c', '(N_A*h*c)', ['molar_Planck_constant_times_c'], 'molar Planck constant times c'),
 ('Planck_constant', 'h', ['Planck_constant', 'h'], 'Planck constant'),
 ('quantum_of_circulation', '(h/(2*m_e))', ['quantum_of_circulation'], 'quantum of circulation'),
 ('quantum_of_circulation_times_2', '(h/m_e)', ['quantum_of_circulation_times_2'], 'quantum of circulation times 2'),
 ('Planck_length', 'l_P', ['Planck_length', 'l_P'], 'Planck length'),
 ('Planck_mass', 'm_P', ['Planck_mass', 'm_P'], 'Planck mass'),
 ('Planck_temperature', 'T_P', ['Planck_temperature', 'T_P'], 'Planck temperature'),
 ('Planck_time', 't_P', ['Planck_time', 't_P'], 'Planck time'),
 ('Rydberg_constant', 'R_infinity', ['R_infinity', 'Rydberg_constant'], 'Rydberg constant'),
 ('Rydberg_constant_times_c_in_Hz', 'Rydberg_constant_times_c_in_Hz', ['Rydberg_constant_times_c_in_Hz'], 'Rydberg constant times c in Hz'),
 ('Rydberg_constant_times_hc_in_eV', 'Rydberg_constant_times_hc_in_eV', ['Rydberg_constant_times_hc_in_eV'], 'Rydberg constant times hc in eV'),
 ('Rydberg_constant_times_hc_in_J', '(R_infinity*h*c)', ['Rydberg_constant_times_hc_in_J'], 'Rydberg constant times hc in J'),
 ('conductance_quantum', 'G_0', ['G_0', 'conductance_quantum'], 'conductance quantum'),
 ('conventional_value_of_Josephson_constant', 'conventional_value_of_Josephson_constant', ['K_J90', 'conventional_value_of_Josephson_constant'], 'conventional value of Josephson constant'),
 ('conventional_value_of_von_Klitzing_constant', 'conventional_value_of_von_Klitzing_constant', ['R_K90', 'conventional_value_of_von_Klitzing_constant'], 'conventional value of von Klitzing constant'),
 ('Fermi_coupling_constant', '(G_F/(hbar*c)**3)', ['Fermi_coupling_constant'], 'Fermi coupling constant'),
 ('inverse_fine_structure_constant', 'alpha**-1', ['inverse_fine_structure_constant'], 'inverse fine-structure constant'),
 ('first_radiation_constant', 'c_1', ['c_1', 'first_radiation_constant'], 'first radiation constant'),
 ('first_radiation_constant_for_spectral_radiance', 'c_1L', ['c_1L', 'first_radiation_constant_for_spectral_radiance'], 'first radiation constant for spectral radiance'),
 ('inverse_of_conductance_quantum', 'G_0**-1', ['inverse_of_conductance_quantum'], 'inverse of conductance quantum'),
 ('Josephson_constant', 'K_J', ['Josephson_constant', 'K_J'], 'Josephson constant'),
 ('magnetic_flux_quantum', 'Phi_0', ['Phi_0', 'magnetic_flux_quantum'], 'magnetic flux quantum'),
 ('Newtonian_constant_of_gravitation_over_h_bar_c', '(G/(hbar*c))', ['Newtonian_constant_of_gravitation_over_h_bar_c'], 'Newtonian constant of gravitation over h-bar c'),
 ('Sackur_Tetrode_constant_ST_100kPa', 'Sackur_Tetrode_constant_ST_100kPa', ['Sackur_Tetrode_constant_ST_100kPa'], 'Sackur-Tetrode constant (1 K, 100 kPa)'),
 ('Sackur_Tetrode_constant_STP', 'Sackur_Tetrode_constant_STP', ['Sackur_Tetrode_constant_STP'], 'Sackur-Tetrode constant (1 K, 101.325 kPa)'),
 ('second_radiation_constant', 'c_2', ['c_2', 'second_radiation_constant'], 'second radiation constant'),
 ('Stefan_Boltzmann_constant', 'sigma', ['Stefan_Boltzmann_constant', 'sigma'], 'Stefan-Boltzmann constant'),
 ('von_Klitzing_constant', 'R_K', ['R_K', 'von_Klitzing_constant'], 'von Klitzing constant'),
 ('Wien_frequency_displacement_law_constant', 'bprime', ['Wien_frequency_displacement_law_constant', 'b_prime'], 'Wien frequency displacement law constant'),
 ('Wien_wavelength_displacement_law_constant', 'b', ['Wien_wavelength_displacement_law_constant', 'b'], 'Wien wavelength displacement law constant'),
 ('Planck_constant_in_eV_s', 'Planck_constant_in_eV_s', ['Planck_constant_in_eV_s'], 'Planck constant in eV s'),
 ('Planck_constant_over_2_pi_in_eV_s', 'Planck_constant_over_2_pi_in_eV_s', ['Planck_constant_over_2_pi_in_eV_s'], 'Planck constant over 2 pi in eV s'),
 ('Planck_constant_over_2_pi_times_c_in_MeV_fm', 'Planck_constant_over_2_pi_times_c_in_MeV_fm', ['Planck_constant_over_2_pi_times_c_in_MeV_fm'], 'Planck constant over 2 pi times c in MeV fm'),
 ('Planck_mass_energy_equivalent_in_GeV', 'Planck_mass_energy_equivalent_in_GeV', ['Planck_mass_energy_equivalent_in_GeV'], 'Planck mass energy equivalent in GeV'),
 ('hertz_inverse_meter_relationship', 'hertz_inverse_meter_relationship', ['hertz_inverse_meter_relationship'], 'hertz-inverse meter relationship'),
 ('hertz_joule_relationship', 'hertz_joule_relationship', ['hertz_joule_relationship'], 'hertz-joule relationship'),
 ('hertz_kelvin_relationship', 'hertz_kelvin_relationship', ['hertz_kelvin_relationship'], 'hertz-kelvin relationship'),
 ('hertz_kilogram_relationship', 'hertz_kilogram_relationship', ['hertz_kilogram_relationship'], 'hertz-kilogram relationship'),
 ('inverse_meter_hertz_relationship', 'inverse_meter_hertz_relationship', ['inverse_meter_hertz_relationship'], 'inverse meter-hertz relationship'),
 ('inverse_meter_joule_relationship', 'inverse_meter_joule_relationship', ['inverse_meter_joule_relationship'], 'inverse meter-joule relationship'),
 ('inverse_meter_kelvin_relationship', 'inverse_meter_kelvin_relationship', ['inverse_meter_kelvin_relationship'], 'inverse meter-kelvin relationship'),
 ('inverse_meter_kilogram_relationship', 'inverse_meter_kilogram_relationship', ['inverse_meter_kilogram_relationship'], 'inverse meter-kilogram relationship'),
 ('joule_hertz_relationship', 'joule_hertz_relationship', ['joule_hertz_relationship'], 'joule-hertz relationship'),
 ('joule_inverse_meter_relationship', 'joule_inverse_meter_relationship', ['joule_inverse_meter_relationship'], 'joule-inverse meter relationship'),
 ('joule_kelvin_relationship', 'joule_kelvin_relationship', ['joule_kelvin_relationship'], 'joule-kelvin relationship'),
 ('joule_kilogram_relationship', 'joule_kilogram_relationship', ['joule_kilogram_relationship'], 'joule-kilogram relationship'),
 ('kelvin_hertz_relationship', 'kelvin_hertz_relationship', ['kelvin_hertz_relationship'], 'kelvin-hertz relationship'),
 ('kelvin_inverse_meter_relationship', 'kelvin_inverse_meter_relationship', ['kelvin_inverse_meter_relationship'], 'kelvin-inverse meter relationship'),
 ('kelvin_joule_relationship', 'kelvin_joule_relationship', ['kelvin_joule_relationship'], 'kelvin-joule relationship'),
 ('kelvin_kilogram_relationship', 'kelvin_kilogram_relationship', ['kelvin_kilogram_relationship'], 'kelvin-kilogram relationship'),
 ('kilogram_hertz_relationship', 'kilogram_hertz_relationship', ['kilogram_hertz_relationship'], 'kilogram-hertz relationship'),
 ('kilogram_inverse_meter_relationship', 'kilogram_inverse_meter_relationship', ['kilogram_inverse_meter_relationship'], 'kilogram-inverse meter relationship'),
 ('kilogram_joule_relationship', 'kilogram_joule_relationship', ['kilogram_joule_relationship'], 'kilogram-joule relationship'),
 ('kilogram_kelvin_relationship', 'kilogram_kelvin_relationship', ['kilogram_kelvin_relationship'], 'kilogram-kelvin relationship'),
 ('Avogadro_constant', 'N_A', ['Avogadro_constant', 'L', 'N_A'], 'Avogadro constant'),
 ('Loschmidt_constant', 'n_0', ['Loschmidt_constant', 'n_0'], 'Loschmidt constant (273.15 K, 101.325 kPa)'),
 ('molar_gas_constant', 'R', ['R', 'molar_gas_constant'], 'molar gas constant'),
 ('Boltzmann_constant', 'k', ['Boltzmann_constant', 'k'], 'Boltzmann constant'),
 ('Boltzmann_constant_in_eV_per_K', 'Boltzmann_constant_in_eV_per_K', ['Boltzmann_constant_in_eV_per_K'], 'Boltzmann constant in eV/K'),
 ('Boltzmann_constant_in_Hz_per_K', 'Boltzmann_constant_in_Hz_per_K', ['Boltzmann_constant_in_Hz_per_K'], 'Boltzmann constant in Hz/K'),
 ('Boltzmann_constant_in_inverse_meters_per_kelvin', 'Boltzmann_constant_in_inverse_meters_per_kelvin', ['Boltzmann_constant_in_inverse_meters_per_kelvin'], 'Boltzmann constant in inverse meters per kelvin'),
 ('molar_mass_constant', 'M_u', ['M_u', 'molar_mass_constant'], 'molar mass constant'),
 ('molar_volume_of_ideal_gas_ST_100kPa', 'molar_volume_of_ideal_gas_ST_100kPa', ['molar_volume_of_ideal_gas_ST_100kPa'], 'molar volume of ideal gas (273.15 K, 100 kPa)'),
 ('molar_volume_of_ideal_gas_STP', 'molar_volume_of_ideal_gas_STP', ['molar_volume_of_ideal_gas_STP'], 'molar volume of ideal gas (273.15 K, 101.325 kPa)'),
 ('molar_volume_of_silicon', 'molar_volume_of_silicon', ['molar_volume_of_silicon'], 'molar volume of silicon'),
 ('tau_mass', 'm_tau', ['m_tau', 'tau_mass'], 'tau mass'),
 ('tau_Compton_wavelength', 'lambda_C_tau', ['lambda_C_tau', 'tau_Compton_wavelength'], 'tau Compton wavelength'),
 ('tau_Compton_wavelength_over_2_pi', 'lambdabar_C_tau', ['tau_Compton_wavelength_over_2_pi'], 'tau Compton wavelength over 2 pi'),
 ('tau_mass_energy_equivalent', '(m_tau*c**2)', ['tau_mass_energy_equivalent'], 'tau mass energy equivalent'),
 ('tau_mass_energy_equivalent_in_MeV', 'tau_mass_energy_equivalent_in_MeV', ['tau_mass_energy_equivalent_in_MeV'], 'tau mass energy equivalent in MeV'),
 ('tau_mass_in_u', 'tau_mass_in_u', ['tau_mass_in_u'], 'tau mass in u'),
 ('tau_molar_mass', 'M_tau', ['tau_molar_mass'], 'tau molar mass'),
 ('tau_electron_mass_ratio', '(m_tau/m_e)', ['tau_electron_mass_ratio'], 'tau-electron mass ratio'),
 ('tau_muon_mass_ratio', '(m_tau/m_mu)', ['tau_muon_mass_ratio'], 'tau-muon mass ratio'),
 ('tau_neutron_mass_ratio', '(m_tau/m_n)', ['tau_neutron_mass_ratio'], 'tau-neutron mass ratio'),
 ('tau_proton_mass_ratio', '(m_tau/m_p)', ['tau_proton_mass_ratio'], 'tau-proton mass ratio'),
 ('triton_mass', 'm_t', ['m_t', 'triton_mass'], 'triton mass'),
 ('triton_g_factor', 'g_t', ['g_t', 'triton_g_factor'], 'triton g factor'),
 ('triton_magnetic_moment', 'mu_t', ['mu_t', 'triton_magnetic_moment'], 'triton magnetic moment'),
 ('triton_mass_energy_equivalent', '(m_t*c**2)', ['triton_mass_energy_equivalent'], 'triton mass energy equivalent'),
 ('triton_mass_energy_equivalent_in_MeV', 'triton_mass_energy_equivalent_in_MeV', ['triton_mass_energy_equivalent_in_MeV'], 'triton mass energy equivalent in MeV'),
 ('triton_mass_in_u', 'triton_mass_in_u', ['triton_mass_in_u'], 'triton mass in u'),
 ('triton_molar_mass', 'M_t', ['triton_molar_mass'], 'triton molar mass'),
 ('triton_electron_mass_ratio', '(m_t/m_e)', ['triton_electron_mass_ratio'], 'triton-electron mass ratio'),
 ('triton_proton_mass_ratio', '(m_t/m_p)', ['triton_proton_mass_ratio'], 'triton-proton mass ratio'),
 ('triton_electron_magnetic_moment_ratio', '(mu_t/mu_e)', ['triton_electron_magnetic_moment_ratio'], 'triton-electron magnetic moment ratio'),
 ('triton_magnetic_moment_to_Bohr_magneton_ratio', '(mu_t/mu_B)', ['triton_magnetic_moment_to_Bohr_magneton_ratio'], 'triton magnetic moment to Bohr magneton ratio'),
 ('triton_magnetic_moment_to_nuclear_magneton_ratio', '(mu_t/mu_N)', ['triton_magnetic_moment_to_nuclear_magneton_ratio'], 'triton magnetic moment to nuclear magneton ratio'),
 ('triton_neutron_magnetic_moment_ratio', '(mu_t/mu_n)', ['triton_neutron_magnetic_moment_ratio'], 'triton-neutron magnetic moment ratio'),
 ('triton_proton_magnetic_moment_ratio', '(mu_t/mu_p)', ['triton_proton_magnetic_moment_ratio'], 'triton-proton magnetic moment ratio'),
 ('weak_mixing_angle', 'weak_mixing_angle', ['weak_mixing_angle'], 'weak mixing angle'),
 ('Angstrom_star', 'A*', ['Angstrom_star'], 'Angstrom star'),
 ('silicon_220_lattice_spacing', 'd_220', ['a_Si_220', 'd_220', 'silicon_220_lattice_spacing'], '{220} lattice spacing of silicon'),
 ('Cu_x_unit', 'CuKalpha_1', ['Cu_x_unit'], 'Cu x unit'),
 ('lattice_parameter_of_silicon', 'lattice_parameter_of_silicon', ['a', 'a_Si_100', 'lattice_parameter_of_silicon'], 'lattice parameter of silicon'),
 ('Mo_x_unit', 'MoKalpha_1', ['Mo_x_unit'], 'Mo x unit'),
]
