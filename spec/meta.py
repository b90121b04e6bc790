"""Writes properties.jsonl and MANIFEST.json (python3-vt spec/meta.py)."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
TECH = "contracts on the real functions; VCs by symbolic execution of the source, discharged by ring normal form, case split and z3/cvc5"
S, L, R, U = "OpenNTN/system_level_scenario.py", "OpenNTN/lsp.py", "OpenNTN/rays.py", "OpenNTN/utils.py"
US, SS, DS = "OpenNTN/urban_scenario.py", "OpenNTN/sub_urban_scenario.py", "OpenNTN/dense_urban_scenario.py"
CC, SC, AN = "OpenNTN/channel_coefficients.py", "OpenNTN/system_level_channel.py", "OpenNTN/antenna.py"
INP, HIS, CFG = "inputs", "histories", "configurations"
ALLT = "Every batch size and number of UTs and BSs, every real position, orientation, velocity and indoor state, "
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, note=None, level="proof"):
    assert len(title) <= 80, title
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), note=note, level=level))


prop("C01", "Scenario configurations are validated and select their own parameter tables",
     "A dense-urban, urban or sub-urban scenario accepts every carrier in 1.9-4 GHz or 19-40 GHz, every elevation in [10,90] degrees and both directions, keeps its arguments, and takes its LoS and NLoS parameters from the files of its own environment, band and direction. "
     "A carrier outside the bands, an elevation outside the range, an unknown direction, an array object of the wrong type, or an array made for another carrier is rejected, whichever argument is wrong.",
     [CFG, INP], "All three environments, both directions, all carriers and elevations as reals, all on/off flags.",
     "Tests build a handful of carriers and elevations and compare a few parameters; they cannot cover the whole band or each wrong argument in isolation.",
     [S, US, SS, DS], [("argument checks and table loading", S + " SystemLevelScenario.__init__, _load_params"), ("file selection", US + " los_parameter_filepath, nlos_parameter_filepath")])
prop("C02", "Every link uses the parameters of its own state, environment and elevation",
     "Every tabulated parameter looked up for a link, the numbers of clusters, and the log-mean and log-deviation of each of the seven large-scale parameters (DS, ASD, ASA, SF, K, ZSA, ZSD, with SF and K converted from dB) are the entries at the tabulated elevation nearest to the scenario's, taken from the LoS table where that very link is in line of sight and from the NLoS table otherwise.",
     [INP, CFG], ALLT + "all line-of-sight patterns over links, the 108 combinations of environment, band, direction and nearest elevation.",
     "Tests sample statistics of one link state at a time with a tolerance; an entry mixed up between links of different states, or at another elevation, is not visible in them.",
     [S, US, SS, DS], [("look-up", S + " get_param, num_clusters_*"), ("log moments", US + " _compute_lsp_log_mean_std")])
prop("C03", "The shipped parameter tables are the reference tables and are admissible",
     "Every entry of the 24 shipped environment tables equals the reference entry, and each table is usable: probabilities within [0,1] and not decreasing with elevation, non-negative spreads, positive correlation distances, delay scaling above one, 2 to 20 clusters, and a positive definite cross-correlation matrix at each elevation.",
     [CFG], "All 24 tables, all nine elevations, all entries (exact rational arithmetic).",
     "Tests read the same files the code reads, so a wrong entry agrees with itself; definiteness of the matrices is never examined.",
     ["OpenNTN/models"], [("tables", "OpenNTN/models/*.json")], note="finite domain: every entry is enumerated and evaluated exactly; the verifier has no unbounded quantifier to discharge here")
prop("C04", "Distances and angles are those of each link's own end points",
     "For every link the 2D distance and the UT-UT distances are the Euclidean ones, the slant range is sqrt((R sin a)^2 + h^2 + 2hR) - R sin a with the altitude h of that link's own satellite, and the LoS azimuth and zenith angles of departure are those of the BS-UT vector in degrees within [0,360]. "
     "The arrival angles point back along the same line (azimuth + 180, 180 - zenith, modulo 360).",
     [INP], ALLT + "any elevation angle.", "Tests use one satellite height for a whole batch and compare a few angles; per-link mix-ups and quadrant errors escape.",
     [S], [("geometry", S + " _compute_distance_2d_3d_and_angles")])
prop("C05", "Line-of-sight state: requested, drawn independently, never indoors",
     "With a requested line-of-sight state every outdoor link has exactly that state; without a request an outdoor link is in line of sight exactly when its own uniform draw on [0,1) lies below the tabulated probability of the environment at the nearest elevation. A link to an indoor UT is never in line of sight.",
     [INP, CFG], ALLT + "every outcome of the random draws, 108 table configurations.", "Tests estimate frequencies over many draws for outdoor UTs only.",
     [S, U, US, SS, DS], [("sampling", S + " _sample_los"), ("Bernoulli draw", U + " sample_bernoulli"), ("probabilities", US + " los_probability")])
prop("C06", "Topology updates leave nothing stale and lose nothing",
     "After a complete topology followed by a partial one, a scenario is in the state a fresh scenario would reach from the latest value of each argument: positions, orientations, velocities, indoor states, atmosphere and earth-station parameters, geometry, line-of-sight states, log moments and every path-loss component. "
     "Sizes may change between updates, an incomplete first topology is rejected, and a channel model redraws its large-scale parameters from the new correlation matrices whenever geometry or link state changes.",
     [HIS, INP], "Histories of two updates with any subset listed in the contract of changed arguments (16 subsets), arbitrary values of all tensors and scalars, sizes and environments; the state after two updates depends on the first only through the stored arguments.",
     "Tests set one topology per object; histories of partial updates are never run.",
     [S, L, SC, R], [("merge of arguments", S + " set_topology"), ("callbacks", SC + " set_topology; " + L + " topology_updated_callback")])
prop("C07", "Large-scale parameters: log-normal, correlated, capped and positive",
     "Each of the seven large-scale parameters of each link is 10^(mean + deviation * s) with the link's own moments, where s mixes an independent standard normal vector by the factor of the link's cross-correlation matrix and, over the UTs of the same BS, by the factor of that parameter's spatial correlation matrix. Azimuth spreads never exceed 104 degrees, zenith spreads never exceed 52 degrees, and all are positive.",
     [INP], ALLT + "every outcome of the draws.", "Tests check moments of samples over one geometry; the exact mixing across parameters, UTs and BSs and the caps for every draw are out of reach of sampling.",
     [L], [("generation", L + " LSPGenerator.__call__")])
prop("C08", "Cross-correlation of the large-scale parameters is the table's",
     "The matrix whose factor mixes the seven large-scale parameters of a link is symmetric with unit diagonal, its 42 off-diagonal entries are the coefficients of the link's own LoS or NLoS table at the nearest elevation, and the factor in use is always that of the current topology.",
     [INP, CFG, HIS], ALLT + "108 table configurations, all line-of-sight patterns.", "Tests compare sample correlations of a few pairs within a tolerance larger than many coefficients.",
     [L, S], [("matrix", L + " _compute_cross_lsp_correlation_matrix"), ("callback", L + " topology_updated_callback")])
prop("C09", "Spatial correlation decays with distance within a state, and not across states",
     "For every BS and parameter, the large-scale parameters of two UTs in the same state (line of sight, outdoor without, indoor) are correlated by exp(-d/D), d their horizontal distance and D the tabulated distance of that state, parameter and elevation; UTs in different states are uncorrelated and every UT has unit variance.",
     [INP, CFG], ALLT + "108 table configurations, all patterns of states.", "Tests use a few UTs in one state; mixed states and per-BS patterns are not compared.",
     [L], [("matrix", L + " _compute_lsp_spatial_correlation_sqrt")])
prop("C10", "Path loss is the sum of its components, each of the right link",
     "Free-space loss is 32.45 + 20 log10(f/GHz) + 20 log10(d3D/m); the basic loss adds the tabulated clutter loss on NLoS links only and, exactly when shadow fading is enabled, a zero-mean Gaussian of the tabulated deviation of the link's own state. The total is basic + gas + scintillation + entry loss, and the entry loss of these outdoor models is zero.",
     [INP, CFG], ALLT + "all line-of-sight patterns, 108 table configurations, every outcome of the draws, shadow fading on and off.", "Tests compare single links and means; the flag and per-link selection over mixed batches are not settled.",
     [U, L, US, SS, DS], [("basic", U + " compute_pathloss_basic"), ("entry", U + " compute_pathloss_entry"), ("sum", L + " sample_pathloss")])
prop("C11", "Gas loss follows carrier, elevation and atmosphere, and is not negative",
     "The gaseous attenuation of every link is the slant-path attenuation of the package's documented closed-form approximation (dry air plus nine water-vapour lines, equivalent heights, divided by the sine of the elevation) at the scenario's carrier, elevation, temperature, pressure and vapour density, default or given, and is not negative.",
     [INP, CFG], "Every carrier of both bands, elevation, temperature, pressure and vapour density in the documented ranges, every size.", "Tests evaluate a few tabulated points of the default atmosphere.",
     [U, US, SS, DS], [("attenuation", U + " compute_pathloss_gas")], note="the formula is pinned to the expression of the shipped implementation; agreement with ITU-R P.676 itself is not shown")
prop("C12", "Scintillation loss is the band's formula, finite and not negative",
     "Below 6 GHz the scintillation loss is the ionospheric 1.1 (f/4)^-1.5 / sqrt(2) dB; above, it is the tropospheric ITU-R P.618 loss for 0.01 % of the time at the scenario's elevation, temperature, humidity, antenna diameter and efficiency. It is finite and not negative for every atmosphere and earth station, and zero where antenna averaging makes the radicand negative.",
     [INP, CFG], "Every carrier, elevation, temperature, humidity, antenna diameter and efficiency in the documented ranges, every size.", "Tests evaluate the default earth station only; the negative radicand needs a large antenna at a low elevation.",
     [U, US, SS, DS], [("scintillation", U + " compute_pathloss_scintilation")])
prop("C13", "Clusters: count per link, sorted non-negative delays, LoS delay scaling",
     "A link uses exactly the tabulated number of clusters of its own state and elevation. Its delays are independent exponentials of scale r_tau * DS (one uniform draw on (0,1] each) in ascending order relative to the earliest, hence non-negative, and on LoS links the delays used for the impulse response are divided by the tabulated polynomial in the K-factor.",
     [INP, CFG], ALLT + "every outcome of the draws, every pair of cluster counts of the tables, arbitrary parameter tensors.", "Tests check means and sortedness of samples of one state.",
     [R], [("delays", R + " _cluster_delays"), ("mask", R + " _compute_clusters_mask")])
prop("C14", "Cluster powers are non-negative, sum to one and decay as specified",
     "Cluster powers are the exponential decay in delay under per-cluster log-normal shadowing, zero on unused clusters, normalised to sum to one on every link; the copy that steers angles differs only on LoS links, where it is scaled by 1/(K+1) with K/(K+1) added to the first cluster.",
     [INP, CFG], ALLT + "every outcome of the draws, every pair of cluster counts, arbitrary parameter tensors, K and delays.", "Tests check sums and a few ratios of samples.",
     [R], [("powers", R + " _cluster_powers")])
prop("C15", "Ray angles: LoS-anchored clusters, tabulated offsets, folded ranges",
     "Every ray's azimuth is the cluster angle of step 7 (signed inverse-Gaussian spread, random component, anchored to the LoS direction through the first cluster on LoS links) plus the tabulated ray offset scaled by the intra-cluster spread, wrapped to (-180,180]; zenith angles are the Laplacian counterpart with the ZoD offset on NLoS departures, folded into [0,180]. "
     "Departure cluster spreads vanish exactly on links whose own BS is at least 160 km high.",
     [INP, CFG], ALLT + "every outcome of the draws, every pair of cluster counts, arbitrary spreads, K-factors, powers and parameter tensors.", "Tests compare moments or a re-implementation at one geometry with a single BS.",
     [R, S], [("azimuth", R + " _azimuth_angles"), ("zenith", R + " _zenith_angles"), ("satellite test", R + " _is_satellite")],
     note="links whose C_phi/C_theta polynomial is within 1e-3 of zero are excluded (division)")
prop("C16", "Ray coupling permutes within a cluster; XPR is log-normal and positive",
     "The coupling of rays permutes each of the four angle sets independently within each cluster, so every angle of a cluster appears exactly once and none moves between clusters, links or batch examples. Cross-polarisation ratios are 10^((mu + sigma x)/10) per ray with the link's own table values and an independent standard normal x, hence positive.",
     [INP], ALLT + "every outcome of the draws, every pair of cluster counts, arbitrary parameter tensors.", "Tests check that shuffled rays contain the same values for one sample.",
     [R], [("coupling", R + " _random_coupling, _shuffle_angles"), ("XPR", R + " _cross_polarization_power_ratios")])

prop("C17", "Local and global coordinate systems are proper rotations of each other",
     "The rotation of a panel with orientation (a, b, c) is the proper rotation Rz(a) Ry(b) Rx(c) and the reverse rotation is its inverse. A global direction is seen by the panel under the zenith and azimuth of the reversely rotated unit vector, for every orientation and direction, and the polarisation rotation is the 2x2 rotation that carries the local onto the global spherical unit vectors.",
     [INP], "Every real orientation and direction, every tensor shape.", "Tests compare a few orientations with a re-implementation; degenerate directions and composed rotations are not sampled.",
     [CC], [("rotation", CC + " _forward_rotation_matrix, _reverse_rotation_matrix, _rot_pos"), ("local angles", CC + " _gcs_to_lcs"), ("polarisation", CC + " _compute_psi, _l2g_response")])
prop("C20", "Doppler follows the motion of each link's own terminal and satellite",
     "The phase of a ray advances by 2 pi / wavelength times the velocity of the link's own terminal projected on the ray's own direction and, if satellite Doppler is enabled and the link's own BS is at least 600 km high, that satellite's radial speed. This is its orbital speed sqrt(GM/(R+h)) at its own altitude times cos(elevation) and the cosine of a heading drawn uniformly in [0, 2 pi) per batch example.",
     [INP], ALLT + "every altitude per BS and batch example, sample time, ray direction and carrier.", "Tests use one satellite and one batch example, so a per-link mix-up is invisible.",
     [CC], [("Doppler", CC + " _step_11_doppler_matrix"), ("satellite test", CC + " _is_satellite")], note="G M and the Earth's radius are floats in the source and compared within 1e-3 relative")
prop("C21", "Array offsets: each element contributes its own rotated phase",
     "The phase of an antenna element on a ray is exp(j 2 pi / wavelength r.d), with d the element's position in its own array rotated by the orientation of its own terminal, and r the unit vector of the ray at that end; it has magnitude one, and it multiplies receiver and transmitter elements in every combination.",
     [INP], ALLT + "every array size and element position.", "Tests compare one array pair against a re-implementation.",
     [CC], [("offsets", CC + " _step_11_array_offsets")])
prop("C22", "Rays and LoS path: power, polarisation, Faraday rotation, phase of each link",
     "The 2x2 polarisation matrix of an NLoS ray holds its four random phases with the cross-polar entries scaled by sqrt(1/XPR); on links whose own BS is at least 600 km high, and only there, it is multiplied by the Faraday rotation by 108/(f/GHz)^2 degrees. A ray is sqrt(P/M) times its field coupling, array offset and Doppler phase; the LoS path uses diag(1,-1) under the same rule with phase 2 pi d/wavelength of its own 3D distance and its own directions.",
     [INP], ALLT + "every antenna field pattern and array, every phase, XPR, direction, carrier and altitude per BS and batch example.", "Tests re-implement the formula with one satellite; mixed batches of terrestrial and satellite BSs are not covered.",
     [CC], [("rays", CC + " _step_11_nlos"), ("Faraday", CC + " _add_faraday_rotation"), ("LoS", CC + " _step_11_los")])
prop("C23", "Field factors: each antenna's own pattern, in its own local frame",
     "The field factor of a ray and antenna pair is F_rx^T P F_tx with both fields evaluated in the local frame of the end they belong to, rotated to the global frame, and assigned per antenna by the array's own polarisation index lists; direction and pattern are never exchanged between the two ends.",
     [INP], ALLT + "every field pattern (arbitrary functions on the sphere), single and dual polarised arrays in all combinations and polarisation directions.", "Tests use the shipped omni and 38.901 patterns with one polarisation pairing.",
     [CC], [("field", CC + " _step_11_field_matrix"), ("phases", CC + " _step_11_phase_matrix")])
prop("C24", "Rays add up to their clusters; the two strongest split in three; sorted",
     "Without sub-clustering a path is the sum of the rays of its cluster, with it the two strongest clusters of the link become six paths made of rays {0-7,18,19}, {8-11,16,17}, {12-15} with delay offsets 0, 1.28 and 2.56 times the cluster delay spread; no ray is lost or counted twice. Paths of every link are ordered by delay, coefficients and delays alike.",
     [INP], "Every number of links, clusters, antennas and time samples, every power, delay and coefficient.", "Tests check one random draw per configuration.",
     [CC], [("clusters", CC + " _step_11_reduce_nlos")])
prop("C25", "Channel coefficients combine NLoS and LoS by each link's K-factor",
     "A LoS link's coefficients are its NLoS paths weighted by sqrt(1/(K+1)) plus the LoS path weighted by sqrt(K/(K+1)) on the earliest path; other links' are their NLoS paths. A call samples time at n/f_s, draws four independent phases uniform on (-pi,pi) per ray, and uses the given topology, rays and cluster delay spreads for every part.",
     [INP], ALLT + "every K-factor, sample count and sampling rate, every outcome of the draws.", "Tests compare one draw; swapped links or parts in mixed LoS/NLoS batches are not covered.",
     [CC], [("combination", CC + " _step_11"), ("call", CC + " __call__")], note="the complete inlined step is additionally compared in random runs (contract whole_step, labelled bounded)")

prop("C18", "Antenna elements: documented patterns, slants and field components",
     "An element's field in a direction is the square root of its documented power pattern (isotropic; TR 38.901 with 65 degree beam widths and 8 dBi; the 90 degree dual-linear element; the circular aperture of TR 38.811 with a radius of ten wavelengths, nothing behind it) times the cosine and sine of its slant. It is defined in every direction and never exceeds the pattern's maximum. "
     "Polarisation V is slanted by 0, H by 90, VH by 0 and 90, cross by -45 and 45 degrees, whichever array class is used.",
     [INP, CFG], "Every direction of the sphere, every slant angle, all patterns, polarisations and array classes.", "Tests never evaluate the patterns off their axes or the aperture behind the antenna.",
     [AN], [("field", AN + " AntennaElement.field"), ("patterns", AN + " AntennaElement._radiation_pattern_*"), ("slants", AN + " PanelArray.__init__")])
prop("C19", "Panel arrays: centred grids, and each antenna has exactly one polarisation",
     "Elements form a grid in the yz plane centred on the origin, a given spacing or half a wavelength apart, columns first, and panels likewise; positions are in metres at the array's own carrier. In dual-polarised arrays both polarisations share each position, and the two index lists are disjoint, of equal length and cover all antennas.",
     [INP, CFG], "Every number of elements per panel and of panels, every spacing and carrier.", "Tests use single panels and default spacings.",
     [AN], [("positions", AN + " AntennaPanel.__init__, PanelArray.__init__")])
prop("C26", "Path loss and shadow fading scale each link's own coefficients",
     "Every coefficient of a link is multiplied by 10^(-PL/20) of that link's own total path loss exactly when path loss is enabled, and by the square root of that link's own shadow fading exactly when shadow fading is enabled, alike for all paths, antennas and time samples, in both directions.",
     [INP, CFG], ALLT + "all flags, every path loss and shadow fading value.", "Tests check a mean gain for one configuration; per-link assignment in the uplink with several BSs and UTs is not covered.",
     [SC], [("gain", SC + " _step_12")])
prop("C27", "A channel call wires each link to its own two ends, in both directions",
     "A call uses the rays of the current large-scale parameters - each of the four angles spread by its own parameter - and for every link the positions, orientations, velocities, line-of-sight state, distance and angles of its own two ends, with BSs transmitting in the downlink and UTs in the uplink (departure and arrival exchanged). It returns coefficients [batch, receiver, rx antenna, transmitter, tx antenna, path, time] and delays [batch, receiver, transmitter, path] with the antennas of the terminal's array at the terminal's end.",
     [INP, CFG], ALLT + "all three models, both directions, always_generate_lsp on and off, every number of antennas, paths and time samples.", "Tests run one direction with one BS, where exchanged axes are invisible.",
     [SC, R], [("call", SC + " __call__"), ("rays", R + " __call__")])

prop("C28", "Generated topologies place satellite and UTs as requested",
     "A generated single-sector topology has the satellite of each batch example above the origin at the requested (or default) altitude looking straight down. Its UTs are dropped uniformly and independently over a square of side isd around a point that sees the satellite under the requested elevation; each gets its own height and speed within the limits and a uniformly distributed horizontal heading, is outdoors, and faces the satellite (bearing of its own position, downtilt elevation + 180, slant elevation + 90 degrees). Every argument that is given is honoured, each missing one is the default of its environment.",
     [INP, CFG], "Every batch size, number of UTs, altitude, elevation, cell size, height and speed limit, all environments, each argument given or not, both precisions.",
     "Tests call the generator once per environment and look at the shapes; wrong quadrants of the bearing or an argument lost on the way need other inputs.",
     [U], [("topology", U + " gen_single_sector_topology, generate_uts_topology"), ("drop", U + " drop_uts_in_sector"), ("defaults", U + " set_3gpp_scenario_parameters")])
prop("C29", "UTs are relocated by their own sector and cell",
     "Relocation turns every UT about the origin by 120 degrees times its own sector number and then moves it by its own cell's position, whether sectors and cells are given once, per UT, or per batch example and UT.",
     [INP], "Every batch size and number of UTs, all positions, all forms of sector and cell arguments.", "No test relocates UTs to another sector or cell.",
     [U], [("relocation", U + " relocate_uts")])
prop("C30", "Antenna correlation matrices are Hermitian with the stated entries",
     "The exponential model has a^(i-j) below the diagonal (also for a = 0), its conjugates above and ones on the diagonal; the one-ring model has entries exp(j d (l-m) sin(phi)) exp(-(sigma d (l-m) cos(phi))^2/2) with d = 2 pi times the spacing, hence is Hermitian with unit diagonal.",
     [INP], "Every array size and batch size, every |a| < 1, every angle, spread and spacing.", "No test covers these functions.",
     [U], [("exponential", U + " exp_corr_mat"), ("one ring", U + " one_ring_corr_mat")])
prop("C31", "Frequency and time responses are those of the impulse response",
     "Subcarriers and time grids are centred for even and odd sizes. The OFDM response on each subcarrier is the sum of the path coefficients rotated by exp(-j 2 pi f tau), the discrete-time taps are the sums of the coefficients times sinc(l - W tau), for delays per link or per antenna pair; normalisation divides each link by the root of its own mean energy; the OFDM response of a discrete-time channel is the transform of its taps at the first sample behind each cyclic prefix.",
     [INP], "Every number of links, antennas, paths, time samples, subcarriers, all coefficients and delays.", "No test covers these functions.",
     [U], [("grids", U + " subcarrier_frequencies, time_frequency_vector, time_lag_discrete_time_channel"), ("responses", U + " cir_to_ofdm_channel, cir_to_time_channel, time_to_ofdm_channel")],
     note="all obligations discharged for unbounded sizes and real-valued inputs, floating point treated as real arithmetic; normalised taps for 4 taps")

prop("C32", "Every model works in single and in double precision throughout",
     "A channel model given a precision - by argument, whatever the global default, or by default - accepts arrays and topologies of that precision and computes everything in it: distances, angles, log moments, path loss, large-scale parameters, rays, and finally complex coefficients and real delays. Generated topologies follow the same rule.",
     [CFG], "All three models, both directions, both precisions as an argument or as the default, single and dual polarisation, all batch sizes and numbers of terminals.",
     "Tests run in single precision only; a constant of fixed precision on any path breaks only the other one.",
     [S, R, L, CC, SC, AN, U], [("call", SC + " __call__"), ("stages", S + " set_topology"), ("topology", U + " gen_single_sector_topology")])
prop("C33", "TDL channels have the tabulated profile and the satellite's Doppler shift",
     "A tapped delay line channel has, for each of its models, the taps of TR 38.811: powers normalised to one in total, delays scaled by the delay spread (or in nanoseconds for the models of fixed delay spread), and the K-factor of the line-of-sight models. The angular Doppler shifts range between those of the slowest and the fastest terminal, each increased by the satellite's 2 pi f (v/c) R/(R+h) cos(elevation). Every tap of every antenna pair is a normalised sum of sinusoids at that Doppler with independent angles and phases, scaled by the root of the tap's power, plus the specular part on the first tap of a line-of-sight model; correlation matrices mix the antennas by their square roots.",
     [CFG, INP], "All tabulated models, all delay spreads, carrier frequencies, speeds, orbits and elevations, batch sizes, numbers of antennas, sinusoids and time steps.",
     "There are no tests of these models at all.",
     ["OpenNTN/tdl.py"], [("profile", "OpenNTN/tdl.py _load_parameters"), ("Doppler", "OpenNTN/tdl.py _compute_doppler"), ("taps", "OpenNTN/tdl.py __call__")],
     note="all obligations discharged for all real-valued inputs and all sizes; the specular and correlated cases on four of the eight profiles, which differ only in their tables; floating point treated as real arithmetic")
prop("C40", "CDL models follow TR 38.811",
     "The clustered delay line models generate the power delay profiles of TR 38.811 with the Doppler shift of the satellite.",
     [CFG], "All CDL models.", "There are no tests.", ["OpenNTN/cdl.py"], [("CDL", "OpenNTN/cdl.py")], level="na",
     note="README and the file itself declare this model not implemented (a copy of the TR 38.901 version that 'currently does not work'; calling it raises), so there is no behaviour to decide")
P.sort(key=lambda p: p["id"])


def main():
    done = {c for c in CHECKED}
    with open(ROOT / "properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ("note", "level")}) + "\n")
    checks = [dict(property=p["id"], quick_cmd="python3-vt check.py %s --tier quick" % p["id"], thorough_cmd="python3-vt check.py %s --tier thorough" % p["id"],
                   technique=TECH, level=p["level"], level_note=p["note"] or "all obligations discharged for unbounded sizes and real-valued inputs; floating point treated as real arithmetic")
              for p in P if p["id"] in done]
    na = [dict(property=p["id"], reason=p["note"]) for p in P if p["id"] not in done]
    m = dict(version=1, setup_cmd="python3-vt check.py --selftest", checks=checks, not_applicable=na)
    (ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")


CHECKED = [p["id"] for p in P if p["level"] != "na"]
if __name__ == "__main__":
    main()
