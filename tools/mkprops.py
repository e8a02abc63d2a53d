"""Writes /verif/properties.jsonl (run by hand when the list changes)."""
import json
R="src/ripplegw/"; W=R+"waveforms/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**({'state':state} if state else {}),**({'observe_at':observe} if observe else {}))))
DOM="double precision; component masses with eta in [0.04, 0.25], chirp mass 1-100 Msun, |aligned spin| <= 0.99, distance 1-1e4 Mpc, any tc, phic, reference frequency in band, and frequencies 5e-4 < M f < 0.35"
p("C01","IMRPhenomD strain is the published IMRPhenomD waveform",
 "For every aligned-spin binary in the calibrated domain and every frequency, the IMRPhenomD strain has the amplitude (in seconds, at the given distance) and the phase (time-aligned at the amplitude peak, zeroed at the reference frequency, then shifted by tc and phic) of the published frequency-domain model. The plus and cross polarizations are that strain times the standard inclination factors.",
 ["inputs"],DOM,
 "The stable tests only run notebook cells that plot or bound a phase-maximised mismatch for a few random binaries; no test compares amplitude and phase over the whole domain and none looks at every region, spin sign and mass ratio.",
 [W+"IMRPhenomD.py",W+"IMRPhenomD_utils.py",W+"IMRPhenomD_QNMdata.py",R+"constants.py"],
 [("inspiral, intermediate and merger-ringdown ansaetze","IMRPhenomD.py"),("coefficient fits, final spin, ringdown frequencies, transition frequencies","IMRPhenomD_utils.py"),("ringdown frequency tables","IMRPhenomD_QNMdata.py")],
 observe=["gen_IMRPhenomD","gen_IMRPhenomD_hphc"])
p("C02","IMRPhenomXAS strain is the published IMRPhenomXAS waveform",
 "For every aligned-spin binary in the calibrated domain and every frequency, the IMRPhenomXAS strain has the amplitude and phase of the published frequency-domain model (collocation-point inspiral, intermediate and merger-ringdown regions joined smoothly), with tc and phic entering as for the other models. The polarizations are that strain times the standard inclination factors.",
 ["inputs"],DOM,
 "No stable test evaluates IMRPhenomXAS at all.",
 [W+"IMRPhenomXAS.py",W+"IMRPhenomX_utils.py"],
 [("collocation-point linear systems and region matching","IMRPhenomXAS.py"),("coefficient tables, final state, time alignment","IMRPhenomX_utils.py")],observe=["gen_IMRPhenomXAS","gen_IMRPhenomXAS_hphc"])
p("C03","TaylorF2 strain is the 3.5PN tidal TaylorF2 waveform",
 "For every aligned-spin binary with tidal deformabilities the TaylorF2 strain is the leading-order amplitude with the 3.5PN point-particle phase, the spin-orbit, spin-spin and spin-induced-quadrupole terms (through the universal relation) and the 5PN to 7PN tidal terms, zeroed at the reference frequency and shifted by tc and phic. This holds whether the tidal parameters are given per body or as the two combined ones.",
 ["inputs"],"double precision; chirp mass 0.8-10 Msun, eta in [0.1, 0.25], |spin| <= 0.9, lambda 0-5000, 10-2000 Hz, reference frequency in band or 0 (no reference phase)",
 "The notebook bounds a phase-maximised mismatch for a handful of spinning binaries below an interferometer's noise; absolute phase, amplitude scale and rarely used options are not observed.",
 [W+"TaylorF2.py",W+"IMRPhenom_tidal_utils.py",R+"__init__.py"],
 [("phasing coefficients","TaylorF2.py get_PNPhasing_F2"),("strain assembly","TaylorF2.py"),("universal relation","IMRPhenom_tidal_utils.py")],observe=["gen_TaylorF2","gen_TaylorF2_hphc"])
p("C04","NRTidalv2 strain is the tidally corrected IMRPhenomD waveform",
 "For every binary neutron star the IMRPhenomD_NRTidalv2 strain is the IMRPhenomD amplitude plus the tidal amplitude, times the taper that starts at the merger frequency (or no taper when disabled), with the IMRPhenomD phase plus the tidal phase and the spin-induced quadrupole/octupole phase. This holds whether the tidal parameters are given per body or as the two combined ones.",
 ["inputs"],"double precision; chirp mass 0.8-4 Msun, eta in [0.15, 0.25], |spin| <= 0.7, lambda 0-5000, 10-8000 Hz, taper on or off",
 "The notebook bounds a phase-maximised mismatch at zero spin; the amplitude, the taper, the spin-induced terms and the phase constant are not observed.",
 [W+"IMRPhenomD_NRTidalv2.py",W+"IMRPhenom_tidal_utils.py",W+"IMRPhenomD.py"],
 [("tidal amplitude, phase, merger frequency, taper","IMRPhenomD_NRTidalv2.py"),("kappa and universal relations","IMRPhenom_tidal_utils.py")],observe=["gen_IMRPhenomD_NRTidalv2","gen_IMRPhenomD_NRTidalv2_hphc"])
p("C05","IMRPhenomPv2 polarizations are the published precessing waveform",
 "For every generically spinning binary the IMRPhenomPv2 plus and cross polarizations are the aligned-spin waveform (with the in-plane-spin-corrected final spin) twisted up with the next-to-next-to-leading-order precession angles into the frame of the total angular momentum and rotated to the line of sight, time-aligned at the ringdown frequency and shifted by tc. The result is the same whether component masses or chirp mass and mass ratio are given.",
 ["inputs"],"double precision; chirp mass 2-60 Msun, eta in [0.06, 0.25], |spin vectors| <= 0.95 in every direction including aligned and purely in-plane, any inclination and reference phase, tc, in-band frequencies",
 "No stable test evaluates IMRPhenomPv2.",
 [W+"IMRPhenomPv2.py",W+"IMRPhenomPv2_utils.py",W+"IMRPhenomD.py"],
 [("spin conversion to the J frame","IMRPhenomPv2_utils.py convert_spins"),("precession angles and Wigner coefficients","IMRPhenomPv2_utils.py"),("twist-up","IMRPhenomPv2.py")],observe=["gen_IMRPhenomPv2","gen_IMRPhenomPv2_hphc"])
p("C06","Sine-Gaussian bursts have the stated shape and root-sum-square",
 "For every quality factor, central frequency, phase and eccentricity, the sine-Gaussian polarizations are a Gaussian envelope times cosine and sine of the phase-shifted carrier with the ellipse axes given by the eccentricity. The time integral of the sum of their squares equals the square of the requested root-sum-square strain whenever the grid resolves and contains the burst.",
 ["inputs"],"double precision; quality 2-108, frequency 10-2000 Hz, any phase, eccentricity 0-1, hrss 1e-24-1e-19, any time grid",
 "The notebook plots bursts and compares a few parameter points by eye; the normalisation identity is an integral over every parameter.",
 [W+"SineGaussian.py"],[("axes from eccentricity, normalisation, carrier","SineGaussian.py")],observe=["gen_SineGaussian_hphc"])
p("C07","Mass parameter conversions are mutually inverse and finite",
 "Converting component masses to chirp mass and symmetric mass ratio and back returns the larger and the smaller mass, in that order, for every pair of positive masses, including equal and nearly equal ones, and the conversions commute with a change of mass unit. Effective spin is the mass-weighted mean of the spins and the innermost-stable-circular-orbit frequency is inversely proportional to mass with the Schwarzschild constant.",
 ["inputs"],"all positive masses over 12 decades, mass ratios 1 to 1e4 including ratios within rounding of 1; scalar, array and batched arguments; spins in [-1, 1]",
 "No stable test asserts on the conversions, and rounding exactly at equal masses shows up only for some of the values.",
 [R+"__init__.py",R+"constants.py"],[("mass conversions","__init__.py"),("f_isco, chi_eff","__init__.py")],observe=["ms_to_Mc_eta","Mc_eta_to_ms","get_chi_eff","get_f_isco"])
p("C08","Tidal parameter conversions are mutually inverse and agree",
 "The two combined tidal parameters computed from the individual deformabilities equal their published definitions, converting back returns the individual deformabilities, and the variants that take a mass ratio agree with those that take component masses.",
 ["inputs"],"lambda 0-10000 for each body, masses 0.5-5 Msun in any unit with mass ratio 1-5 down to and including equal masses (forward map; the inverse map for q < 0.999 where it is well conditioned)",
 "No stable test round-trips the conversions; a coefficient error in one direction cancels only if made in both.",
 [R+"__init__.py"],[("tidal conversions","__init__.py")],observe=["lambdas_to_lambda_tildes","lambda_tildes_to_lambdas","*_from_q"])
p("C09","Extrinsic parameters act on the strain exactly as they should",
 "After any sequence of changes, the strain depends on distance only through an overall inverse factor, on coalescence time through exp(-2 pi i f tc), on coalescence phase through exp(2 i phic), and on inclination only through the factors (1+cos^2)/2 and -i cos of the two polarizations; undoing the changes restores the strain. The amplitude and the frequency band do not depend on tc, phic or inclination.",
 ["inputs","histories"],"all five compact-binary models (for the precessing one, distance and coalescence time), any sequence of extrinsic changes from any binary, any frequencies in band",
 "Match-based tests maximise over time and phase and divide out distance, so they cannot see any of these dependences.",
 [W+"IMRPhenomD.py",W+"IMRPhenomXAS.py",W+"TaylorF2.py",W+"IMRPhenomD_NRTidalv2.py",W+"IMRPhenomPv2.py"],
 [("extrinsic phase contribution and distance factor","_gen_* functions"),("polarizations","gen_*_hphc")])
p("C10","Strain scales with total mass",
 "Scaling both masses by s, every frequency (including the reference frequency) by 1/s, the coalescence time and the distance by s multiplies the strain by s, for every waveform model; equivalently strain depends on mass and frequency only through their product up to the overall scale.",
 ["inputs","histories"],"all five models, scale factors 0.2-5, any intrinsic parameters, any sequence of rescalings",
 "A statement about pairs of binaries; no test evaluates two related ones.",
 [W+"IMRPhenomD.py",W+"IMRPhenomXAS.py",W+"TaylorF2.py",W+"IMRPhenomD_NRTidalv2.py",W+"IMRPhenomPv2.py",R+"constants.py"],
 [("geometric units","M_s in every model"),("transition frequencies","get_transition_frequencies, get_cutoff_fMs")])
p("C11","Strain at a frequency is a pure, pointwise function of the inputs",
 "The strain at a frequency depends only on that frequency and the binary: it is the same whichever other frequencies are in the grid, in whatever order, spacing, length or repetition, and whichever calls were made before. Compiled, eager, batched (vectorised over binaries) and per-element evaluations agree, and arguments are never modified.",
 ["inputs","histories","configurations"],"all models; grids that are single points, sub-grids, permutations, refinements and concatenations, starting below or above the cutoff; any history of earlier calls; eager, jit, vmap, jit of vmap",
 "Tests evaluate one uniform grid per binary in one mode; the grid and history quantifiers are not sampled at all.",
 [W+"IMRPhenomD.py",W+"IMRPhenomXAS.py",W+"TaylorF2.py",W+"IMRPhenomD_NRTidalv2.py",W+"IMRPhenomPv2.py",W+"SineGaussian.py",R+"noise.py"],
 [("region selection and cutoff","Phase/Amp of each model")])
p("C12","Exchanging the two bodies of an equal-mass binary changes nothing",
 "For equal masses, exchanging the spins (and the tidal deformabilities) of the two bodies leaves the strain unchanged, for every waveform model; chirp mass, symmetric mass ratio, effective spin and the mass converted back are unchanged under exchange for any masses.",
 ["inputs"],"equal-mass binaries of all aligned-spin and tidal models with different spins and deformabilities; any masses for the conversions",
 "Tests never evaluate an exchanged pair; an asymmetric coefficient shows only for unequal spins at equal mass.",
 [W+"IMRPhenomD.py",W+"IMRPhenomXAS.py",W+"TaylorF2.py",W+"IMRPhenomD_NRTidalv2.py",R+"__init__.py"],[("spin terms","inspiral phase and amplitude of each model"),("tidal and spin-induced terms","get_kappa, get_spin_phase_correction")])
p("C13","Strain is finite, continuous across regions and zero above the cutoff",
 "Within the calibrated domain the strain is finite at every positive frequency, its amplitude and phase are continuous with continuous phase derivative across every internal region boundary, and it is exactly zero above the model's cutoff (total mass times frequency 0.2 for IMRPhenomD and IMRPhenomPv2, 0.3 for IMRPhenomXAS, 1.2 times merger frequency for the tapered tidal model) and non-zero below it (where the taper has not faded it out).",
 ["inputs"],DOM+"; grids entirely below, across or above the cutoff; boundaries located for every binary",
 "Boundaries move with the binary; a jump or a NaN at one of them is invisible in an integrated mismatch on a uniform grid.",
 [W+"IMRPhenomD.py",W+"IMRPhenomXAS.py",W+"IMRPhenomD_NRTidalv2.py",W+"IMRPhenomPv2.py"],[("region joins and cutoff","Phase and Amp of each model")])
p("C14","Automatic derivatives of the waveforms are the true derivatives",
 "For every parameter and in every region, the derivative of the strain obtained by automatic differentiation (forward or reverse, batched or not) is finite and equals the derivative of the waveform as a function of that parameter or of frequency.",
 ["inputs","configurations"],"all models at interior points of their domain (unequal masses, spins inside (-1, 1), non-negligible in-plane spins for the precessing model, deformabilities away from the joint of the universal relation at 1), every parameter and frequency, gradient, Jacobian and batched gradient",
 "No stable test takes a derivative; branch selection and custom derivative rules give silently wrong or NaN values in corners only.",
 [W+"IMRPhenomD.py",W+"IMRPhenomXAS.py",W+"TaylorF2.py",W+"IMRPhenomD_NRTidalv2.py",W+"IMRPhenomPv2.py",W+"SineGaussian.py"],
 [("custom derivative of the taper","IMRPhenomD_NRTidalv2.py"),("where/cond branch selection","all models")])
p("C15","Detector noise curves interpolate their tables and are infinite outside",
 "Every tabulated noise power spectral density equals the linear interpolation, in power, of its published table (squared where the table is an amplitude density), equals the table at its nodes, and is infinite outside the table's range and where the table is infinite; the analytic first-generation curve equals its formula above 40 Hz and is infinite at and below it. The advertised frequency ranges are the ends of the tables.",
 ["inputs"],"every shipped noise curve, every frequency: nodes, between nodes, just inside and outside both ends, zero and negative; scalars, arrays, compiled or not; double precision",
 "Tests use one curve inside its band as a weight in a mismatch; values are never checked.",
 [R+"noise.py",R+"noise_resources"],[("table loading and interpolation","noise.py _load_noise"),("analytic curve","noise.py Sn_LIGOI")],observe=["Sn_*","f_range_*"])
p("C16","Overlap and match are the normalised, maximised inner product",
 "The phase-maximised inner product at a time offset and the match equal their definitions (normalised noise-weighted sum, absolute value, and for the match the maximum over the discrete time shifts); both lie between 0 and 1, equal 1 for a waveform with itself, are symmetric, and are unchanged when either waveform is multiplied by any complex constant or the noise is rescaled. The match is at least the zero-offset inner product and is unchanged when either waveform is shifted by a whole number of time samples.",
 ["inputs","histories"],"any complex strains and positive noise (including infinite noise bins) on any evenly spaced grid with its pads, any offset, directly or through amplitude/phase functions with defaulted second functions",
 "Notebooks only print a number; the algebraic laws quantify over all waveforms and noise curves.",
 [R+"__init__.py"],[("inner product, match","__init__.py")],observe=["get_phase_maximized_inner_product_arr","get_phase_maximized_inner_product","get_match_arr","get_match"])
p("C17","Padding makes an evenly spaced grid FFT-ready",
 "For every evenly spaced grid whose ends are multiples of the spacing, the low pad has exactly first/spacing zeros and the high pad exactly last/spacing - 2 zeros, whatever the spacing (including spacings that are not exact in binary). A grid that is not evenly spaced raises the corresponding warning and an aligned one with exactly representable spacing raises none.",
 ["inputs"],"grids of 3 or more points, start index 0 to several thousand, any spacing",
 "No stable test covers the pads; off-by-one errors appear only for some spacings.",
 [R+"__init__.py"],[("pads","__init__.py get_eff_pads")],observe=["get_eff_pads"])
p("C18","Parameter samplers stay in range, ordered and reproducible",
 "Samples have the requested count, lie inside the requested ranges, are uniform over them, the two-mass sampler always returns the larger value first, and the same key gives the same samples while different keys give different ones.",
 ["inputs"],"any ranges (overlapping, nested, disjoint, reversed order of the two), any key and count",
 "No stable test calls the samplers.",
 [R+"__init__.py"],[("samplers","__init__.py get_M_eta_sampler, get_m1_m2_sampler")],observe=["get_M_eta_sampler","get_m1_m2_sampler"])
p("C19","The model dispatcher runs exactly the model that was named",
 "Asking the dispatcher for a model by name returns exactly what calling that model directly returns, for every advertised name and any sequence of requests on one or several dispatchers; an unknown name raises an error naming it and changes nothing.",
 ["inputs","histories"],"every advertised name and near-miss names (case, spaces, prefixes, non-strings), any request sequence, several dispatcher instances",
 "No stable test uses the dispatcher.",
 [R+"FD_waveform.py"],[("name table","FD_waveform.py")],observe=["FD_waveform_generator.generate_waveform"])
p("C20","Richer models reduce to simpler ones in their limits",
 "With zero deformabilities the tidal models give the point-particle phase and, with the taper disabled, the aligned-spin waveform below its cutoff (exactly, but for the residue that the published octupole fit leaves in the spin-induced phase); with no in-plane spin the precessing model has the aligned-spin amplitude and phase up to a constant phase and a time shift, with the inclination factors of an aligned binary; with vanishing deformability tidal corrections vanish continuously.",
 ["inputs"],"all aligned-spin binaries of the domain, deformabilities tending to 0, in-plane spins zero or tending to 0, total angular momentum along the orbital one",
 "A statement relating two models; tests look at each model alone, and not at the precessing one.",
 [W+"IMRPhenomD_NRTidalv2.py",W+"IMRPhenomPv2.py",W+"TaylorF2.py",W+"IMRPhenom_tidal_utils.py"],[("black-hole limit of the universal relation","IMRPhenom_tidal_utils.py"),("twist-up at zero in-plane spin","IMRPhenomPv2.py")])
p("C21","Single-precision results agree with double precision",
 "In the default single-precision mode every waveform agrees with the exact waveform for the same (single-precision) arguments up to a small multiple of single-precision rounding of the terms its phase is made of; results are finite, have single-precision type, and selecting double precision gives double-precision type and accuracy.",
 ["inputs","configurations"],"all models over their domains, both precision modes selected before import",
 "Tests run in double precision only and cannot see overflow, underflow or lost precision in the other mode.",
 [W+"IMRPhenomD.py",W+"IMRPhenomXAS.py",W+"TaylorF2.py",W+"IMRPhenomD_NRTidalv2.py",W+"IMRPhenomPv2.py",R+"noise.py"],[("constants and intermediate magnitudes","all models")])
p("C22","Tidal building blocks: universal relations, kappa, merger frequency, taper",
 "The quadrupole parameter equals 1 at zero deformability (the octupole one within the 0.4 % of its published fit), they follow the published universal relation above 1 and join it smoothly (value and first derivative) at 1, and never decrease with deformability; the taper is 1 up to its start, 0 from 1.2 times its start, and decreases monotonically in between; the merger frequency decreases with deformability and scales inversely with mass.",
 ["inputs"],"deformabilities 0-10000 including exactly 0 and 1 and their neighbourhoods, any frequency and start, mass ratios 1-5",
 "Tests see these only inside a mismatch below the merger frequency.",
 [W+"IMRPhenom_tidal_utils.py",W+"IMRPhenomD_NRTidalv2.py"],[("universal relation","get_quadparam_octparam"),("taper","get_planck_taper"),("merger frequency","_get_merger_frequency")])
p("C23","The reference frequency only fixes a constant phase",
 "Changing the reference frequency multiplies the whole aligned-spin strain by one constant phase factor, the same at all frequencies, and never changes the amplitude; for the point-particle models the phase of the strain at the reference frequency with zero tc is the one given by phic alone, whatever the binary.",
 ["inputs","histories"],"all aligned-spin models, any binary, any sequence of reference frequencies in every region of the model",
 "Match-based tests maximise over phase and use one reference frequency.",
 [W+"IMRPhenomD.py",W+"IMRPhenomXAS.py",W+"TaylorF2.py",W+"IMRPhenomD_NRTidalv2.py"],[("reference phase","_gen_* functions")])
p("C24","Turning or mirroring a precessing binary acts as geometry demands",
 "For the precessing model, turning both in-plane spins about the orbital angular momentum and the reference phase with them only rotates the two polarizations' common phase by twice the turn; changing inclination by full turns changes nothing, changing its sign together with half a turn of the phase changes nothing, and mirroring the binary through its orbital plane (inclination to pi minus inclination, in-plane spins negated) only flips the sign of the cross polarization - along any sequence of such moves.",
 ["inputs","histories"],"double precision, any precessing binary, both orders of the masses, any number of turns, all frequencies",
 "Tests compare a phase-maximised mismatch of the plus polarization at one orientation; a wrong angle or quadrant cancels there.",
 [W+"IMRPhenomPv2.py",W+"IMRPhenomPv2_utils.py"],[("source-frame angles","IMRPhenomPv2.py convert_spins"),("twisting up","IMRPhenomPv2.py PhenomPcore*")],observe=["gen_IMRPhenomPv2_hphc"])
p("C25","Remnant and band edges are the published fits and scale as physics",
 "Final spin, radiated energy, ringdown and damping frequencies (aligned, precessing and X families), minimum-energy-orbit and innermost-stable-orbit frequencies and the region joins a user reads off the library equal the published fits for every binary; they are physical (spin at most extremal, positive frequencies, energy loss below 20 percent), frequencies scale inversely with total mass and the rest does not depend on it, exchanging the spins of equal bodies changes nothing, spinning a body up never lowers the aligned remnant spin, and in-plane spin only increases the magnitude of the precessing remnant spin and never its sign.",
 ["inputs","histories"],"any masses with q in [0.02,1] including equal, |spin| <= 0.998, in-plane spin 0 to 1; ringdown tables inside their range; eager, compiled and batched",
 "No stable test evaluates these functions; inside a mismatch a shifted ringdown is invisible.",
 [W+"IMRPhenomD_utils.py",W+"IMRPhenomPv2_utils.py",W+"IMRPhenomX_utils.py",W+"IMRPhenomD_QNMdata.py"],[("aligned remnant","IMRPhenomD_utils.py"),("precessing remnant","IMRPhenomPv2_utils.py"),("X remnant and band edges","IMRPhenomX_utils.py get_cutoff_fMs")],
 observe=["FinalSpin0815_s","EradRational0815","get_fRD_fdamp","FinalSpin_inplane","phP_get_fRD_fdamp","get_cutoff_fMs","get_transition_frequencies"])
p("C26","Automatic derivatives of the tools are finite and correct",
 "Differentiating any of the library's tools - mass and tidal-parameter conversions both ways, effective spin, ISCO frequency, multipole parameters, tidal coupling, merger frequency, taper, sine-Gaussian bursts - with respect to any argument gives a finite number that is the derivative of the function, whether taken forward, in reverse, compiled or batched, including at zero deformability, zero spin, zero eccentricity, zero phase and zero time.",
 ["inputs"],"double precision; unequal masses in either order where the tool allows it, deformabilities 0-10000 away from exactly 1, bursts of eccentricity at most 0.99, tapers away from their end points",
 "No test differentiates these functions.",
 [R+"__init__.py",W+"IMRPhenom_tidal_utils.py",W+"IMRPhenomD_NRTidalv2.py",W+"SineGaussian.py"],[("conversions","__init__.py"),("multipoles and coupling","IMRPhenom_tidal_utils.py"),("burst","SineGaussian.py")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,sch)
    assert len(x["title"])<=80
print(len(P))
