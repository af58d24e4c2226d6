A = """P06 runpf: enforcing generator Q
P22 polycost: return an empty
P19 opf_costfcn, opf_hessfcn
P22 opf_setup: piecewise
P19 AC OPF crashed when no
P34 runcpf: predictor
P13 e2i_data:
P13 i2e_data:
P13 e2i_field
P35 scale_load
P28 poly2pwl
P11 opf, uopf: the caller
P36 fairmax
P38 runuopf
P37 printpf: printing a DC
P37 printpf: first area
P37 printpf: binding voltage
P37 printpf: crashed printing binding
P40 printpf: crashed on power flow
P06 runpf: enforcing Q limits crashed when
P15 savecase: the version
P14 loadcase: case files whose
P15 savecase: cases with user
P14 loadcase: missing or
P14 loadcase: baseMVA and
P14 loadcase: converting solved
P35 total_load: disp
P12 int2ext1
P15 loadcase: solved cases saved as
P23 makeApq: OPF crashed
P04 pfsoln: units without
P25 qps_pypower
P26 pips: crashed instead of
P24 dcopf_solver: constant
P29 dcopf_solver: objective
P29 opf_model.add_costs
P29 opf_args, opf_setup: user
P29 opf_costfcn: user costs
P31 toggle_iflims: OPF
P31 toggle_iflims: printing
P30 savecase of cases with reserves
P01 loadcase: tables of whole
P01 power flow: networks without load
P32 toggle_dcline:
P32 loadcase: DC line
P34 runcpf: targets nearer
P35 total_load: zones
P36 uopf: caller
P41 command line: options
P41 command line: fractional
P32 opf: DC line tables
P42 opf_args: mismatches between N
P29 opf_setup: DC OPF with user
P29 opf_setup: wrong user cost
P38 opf_execute:
P38 ppoption:
P14 opf_args2: cases
P39 opf_model: blocks
P40 add_userfcn:
P11 gausspf: the caller
P28 modcost: costs given as whole
P34 cpf_default_callback: plotting
P34 runcpf: curves were reported
P43 makeApq: capability curves given as whole
P43 makeAy: the first reactive
P11 pips: default settings were written
"""
ASSIGN = [l.split(' ', 1) for l in A.strip().splitlines()]
OPEN = []
