"""Which harnesses decide which property, and within what bounds.

Every harness is one bounded symbolic execution: the variables named in its text range over all the
values given there at once.  `quick` and `thorough` list the harnesses that must be explored
completely; `deep` are tried after them in the thorough tier while time is left and are only counted
when they complete.
"""
TECHNIQUE = "bounded symbolic execution of the crate's own LLVM IR, assertions decided by an SMT solver (Z3)"
TRUST = ("Nothing is shown about inputs outside these bounds. Trusted: the reference data in refdata/ (Unicode 16.0), the executor's "
         "reading of LLVM IR (models of explored paths are replayed against the native build on every run), rustc's O2 IR, Z3.")
NOTES = ("Every check compiles /repo's working tree together with the harnesses to LLVM IR, executes it with symbolic characters, and "
         "replays every counterexample natively before it is reported. No hooks in /repo. Exit 2 means no answer (see the ERROR lines).")

P = {
    'C01': dict(
        quick='nfd3 nfkd2 marks4 marks5 segs ksegs hangul long18 long24 long36 long70 run130 hist lens per3_nfd one_nfd one_nfkd per_nfd huge_nfd sweep2 ksweep3 apart kapart tails ktails heads kheads',
        thorough='marks6 kmarks4 nfkd3 run300 run600 khist klens per_nfkd sweep1',
        deep='nfd4',
        bounds='texts of up to 3 unrestricted characters (4 in the deep tier), a letter followed by up to 6 '
               'unrestricted marks, 3-segment texts, runs of up to 600 marks with 2 or 3 symbolic positions, every '
               'length of run up to 34 (66) with 2 symbolic marks, 90 to 300 characters of text followed by 2 '
               'unrestricted ones, one unrestricted character 150 times, two 20 times in turn, 66000 equal marks and '
               'a symbolic one'
               '; every number of marks (to 40) or segments (to 50) before an unrestricted character; two unrestricted characters with 4 to 6 others between'),
    'C02': dict(
        quick='nfc2 nfkc2 marks3 marks4 kmarks3 segs hangul long6 long24 long36 long70 run130 lens per3_nfc one_nfc one_nfkc per_nfc huge_nfc sweep2 ksweep3 apart0 apart kapart tails ktails heads kheads',
        thorough='tails0 marks3x marks3s nfc3 run300 run600 hist khist klens per_nfkc per_any sweep1',
        deep='nfkc3',
        bounds='texts of 2 unrestricted characters (3 in the thorough tier), a letter followed by up to 4 '
               'unrestricted marks, a letter, marks and an unrestricted character, runs of up to 600 marks with 2 or '
               '3 symbolic positions, every length of run up to 34 (50) with 2 symbolic marks, 90 to 300 characters '
               'of text followed by 2 unrestricted ones, one unrestricted character 150 times, an unrestricted '
               'character and mark 12 times in turn, 66000 equal marks and a symbolic one'
               '; every number of marks (to 34) or segments (to 50) before an unrestricted character; two unrestricted characters with 2 to 6 others between'),
    'C03': dict(
        quick='idem_nfd kd_of_d d_of_c m_c_of_d m_d_of_c m_idem_nfc m_idem_nfkc l_idem_nfd '
              'l_d_of_c swap_nfc swap_nfd swap_nfkc swap_nfkd swap_nfc3 swap_nfc_all swap_long swap_longd repl_nfd repl_nfd_any '
              'repl_nfd_anyr repl_nfc_any repl_nfkd repl_nfkc orders_nfd orders_nfc per_c_of_d per_d_of_c per_kd_of_kc',
        thorough='l_idem_nfc idem_nfkd idem_nfc idem_nfkc c_of_d kc_of_c kc_of_d kc_of_kd kd_of_c kd_of_kc m2_idem_nfc m2_d_of_c l_c_of_d repl_nfc '
                 'repl_nfc_anyr repl_nfkc_anyr swap_nfkc_all per_idem_nfc per_idem_nfd per_kc_of_c per_kc_of_kd',
        deep='',
        bounds='texts of 2 unrestricted characters, a letter with 3 unrestricted marks, longer runs with 2 symbolic '
               'marks (every length up to 34), periodic texts of an unrestricted character and mark; replacement of '
               'any one canonical (compatibility) composite by its decomposition next to unrestricted characters'),
    'C04': dict(
        quick='nfd2 nfd_m4 nfc2 nfc_m3 nfkc2 nfkc_m3 run130 crun130 hist_nfc histm_nfc histm_nfkc one_nfd one_nfc sweep1_nfc sweep2_nfc apart_nfd apart_nfc tails_nfd tails_nfc tails_nfkd tails_nfkc',
        thorough='sweep2_nfd per_nfd hist_nfd ages_nfd apart_nfkc nfd3 sweep3_nfkd nfkd2 apart_nfkd sweep3_nfkc nfkd3 nfc3 hist_nfkc hist2_nfc per_nfc per_nfkc ages_nfc one_nfkc per_nfkd',
        deep='nfkc3',
        bounds='texts of 2 unrestricted characters (3 for NFD; 3 for all forms in the thorough tier), a letter with '
               'up to 4 unrestricted marks, runs of 130 marks with 3 symbolic positions, 60 to 180 characters of '
               'normalized text followed by 2 unrestricted characters, periodic texts of 1 or 2 unrestricted '
               'characters, 66000 characters of normalized text followed by 2 unrestricted characters'
               '; every number of marks (to 30) or segments (to 50) before an unrestricted character; two unrestricted characters apart'),
    'C05': dict(
        quick='nfd3 nfd_m4 nfkd3 nfc2 nfc_m3 nfkc2 ss_nfc2 ss_nfd2 mid_nfc mid_nfd mid2_nfc mid2_nfd pre30_nfc pre30_nfd run_nfd run_nfkc hist_nfd hist_nfc hist_nfkd hist_nfkc segs_nfd segs_nfc per_nfd per_nfc per_nfkd per_nfkc per_ss_nfc huge sweep_nfd sweep_nfc sweep_nfkd sweep_nfkc sweep_ss_nfd sweep_ss_nfc apart_nfd apart_nfc apart_nfkd apart_nfkc',
        thorough='nfkd2 nfd2 nfc3 nfkc3 mid3_nfd pre28_nfd pre29_nfd per_ss_nfd',
        deep='mid3_nfc pre29_nfc pre28_nfc',
        bounds='texts of 2 unrestricted characters (3 in the thorough tier), a letter with up to 4 unrestricted '
               'marks, up to 100 characters of normalized text followed by 2 unrestricted ones, periodic texts of 1 '
               'or 2 unrestricted characters, 66000 marks; for the stream-safe quick checks runs of 28 to 31 marks '
               'with up to 3 unrestricted positions'
               '; every number of marks (to 64) or segments (to 40) before an unrestricted character; two unrestricted characters apart'),
    'C06': dict(
        quick='any3 pre30 mid again run hist per huge ages sweep0 sweep1 sweep2 apart',
        thorough='pre29 first30 pre27 pre28 first first29 mid2 third',
        deep='any4',
        bounds='texts of 3 unrestricted characters, runs of 27 to 150 marks with 2 or 3 unrestricted characters '
               'before, in and after them, around the limit of 30, 300 or 66000 characters of text followed by 2 '
               'unrestricted ones, two unrestricted characters 33 times in turn'
               '; every number of marks (to 94) or segments (to 60) before an unrestricted character'),
    'C07': dict(
        quick='nfd2 nfc2 mid_nfd mid_nfc mid2_nfd pre30_nfd per_nfd per_nfc sweep0_nfd sweep0_nfc sweep1_nfd sweep1_nfc sweep2_nfd apart_nfd ',
        thorough='segs_nfd pre30_nfc agesp_nfd apart_nfc mid2_nfc nfd3 mid3_nfd pre29_nfd pre28_nfd segs_nfc agesp_nfc',
        deep='mid3_nfc nfc3 pre29_nfc pre28_nfc',
        bounds='texts of 2 unrestricted characters (3 in the thorough tier), runs of 28 to 31 marks with up to 3 '
               'unrestricted positions, 5 runs of 26 to 30 marks followed by 2 unrestricted characters, one '
               'unrestricted character 32 times, 66000 characters of normalized text followed by 2 unrestricted ones'
               '; every number of marks (to 64) or segments (to 60) before an unrestricted character'),
    'C08': dict(
        quick='nfd2 nfd29 run_nfd run_nfc per_nfd per_nfc per2_nfc ',
        thorough='sweep1_nfd apart_nfd apart_nfc sweep0_nfc nfd28 nfd30 nfd_mid hist_nfd sweep0_nfd sweep1_nfc',
        deep='nfc2 nfc28 nfc29 nfc30 nfc_mid hist_nfc per2_nfd',
        bounds='texts of 2 unrestricted characters, runs of 28 to 33 (127) marks with 1 or 2 unrestricted positions, '
               'one unrestricted character 64 times, a letter and an unrestricted mark in turn 16 times'
               '; every number of marks to 33 (44) before an unrestricted character and two marks; two unrestricted characters apart'),
    'C09': dict(quick='ccc', thorough='', deep='', bounds='every character (the whole input space)'),
    'C10': dict(quick='pair back', thorough='', deep='', bounds='every pair of characters (the whole input space)'),
    'C11': dict(quick='canonical compatible full_canonical full_compatible', thorough='', deep='',
                bounds='every character (the whole input space)'),
    'C12': dict(quick='char any1 any2 any3 any4 nfc nfd nfkc nfkd hist ages', thorough='', deep='',
                bounds='decompose_cjk_compat_variants on every character; the iterator on texts of up to 4 unrestricted '
               'characters and after 300 or 66000 characters of text; stability of the output under normalization '
               'for texts of 1 character followed by 1 unrestricted one'),
    'C13': dict(quick='mark assigned', thorough='', deep='', bounds='every character (the whole input space)'),
    'C14': dict(
        quick='hint_cjk hint_nfd hint_nfc hint_nfkd hint_ss hint_nfd_m hint_nfc_m hint_nfd_l hint_nfc_l clone_cjk clone_nfd '
              'clone_nfc clone_nfd_m clone_nfc_m clone_nfd_l clone_nfc_l disp_cjk disp_nfd disp_nfc disp_nfkd '
              'disp_nfd_m disp_nfc_m disp_nfc_s disp_nfd_l disp_nfc_l run_nfd hint_nfc_g hint_nfkc_j hist_nfd hist_nfkd hist_nfc hist_cjk per_nfd per_nfc per_nfkc ways_nfd ways_nfkd ways_nfc ways_nfkc ways_cjk ways_ss ways_nfd_m ways_nfc_m ways_ss_l string_nfd string_nfc string_cjk fail_nfd fail_nfc fail_nfkd fail_nfkc fail_cjk ages_nfd ages_nfkd ages_nfc ages_cjk sweep1_nfc sweep2_nfkd sweep3_nfkc sweep3_cjk apart_nfc apart_nfd apart_cjk loose_nfd loose_nfkd loose_nfc loose_nfkc loose_cjk loose_ss ends_nfd ends_nfkd ends_nfc ends_nfkc ends2_nfd ends2_nfc ends_run_nfd ends_run_nfc',
        thorough='sweep1_nfd clone_nfc_s run_nfc hint_nfkc hint_ss_l clone_nfkd clone_nfkc disp_nfkc',
        deep='hint_nfkd3',
        bounds='texts of 2 unrestricted characters, a letter with 3 unrestricted marks, runs of 11 to 44 marks with '
               '2 or 3 symbolic positions, periodic texts, 30 or 66000 characters of text followed by 2 symbolic '
               'ones; every point of the iteration (after a long history: every point behind it)'
               '; every number of marks or segments to 24 before an unrestricted character; sources with loose size hints, and sources that go on after None'),
    'C15': dict(
        quick='char chars props cjk ss ss_l nfd nfc nfkd nfkc nfd3 nfkd3 nfc_l nfkc_l preds_0 preds_l endless_nfd '
              'endless_nfc endless_nfkd endless_nfkc endless_cjk endless_ss run300_nfkd run300_nfkc run_ss preds_run_nfd preds_run_nfc preds_run_nfkd preds_run_nfkc preds_run_ss hist_nfd hist_nfkd hist_nfc hist_nfkc hist_cjk hist_ss run300_nfd run300_nfc per_nfd per_nfc per_nfkc ages_nfd ages_nfkd ages_ss ages_cjk ages_q_nfd ages_q_ss huge_nfd huge_nfc huge_ss sweep2_nfc sweep0_ss apart_nfkc loose_nfd loose_nfkd loose_nfc loose_nfkc loose_cjk loose_ss',
        thorough='apart_preds nfd_l sweep1_nfkc preds_c sweep0_preds nfc3 preds_d preds_kc preds_cs ages_nfc sweep1_nfd',
        deep='',
        bounds='every character and pair for the functions of characters; texts of 2 unrestricted characters (3 for '
               'NFD and NFKD), runs of 11 to 300 marks with 2 or 3 symbolic positions, periodic texts, 30 to 66000 '
               'characters of text followed by 2 unrestricted ones, 66000 marks in a run, and repetitions of any '
               'starter without an end (4 steps)'
               '; every number of marks (to 40; 130 for stream_safe) or segments (to 66) before an unrestricted character; sources with the largest size hints'),
    'C16': dict(
        quick='nfd2 nfc2 nfd3 nfc_segs nfd_segs nfc_hangul nfd_long nfc_long ss2 ss_l cjk3 run_nfd run_nfc hist_nfd hist_nfkd hist_nfc hist_nfkc per_nfd per_nfkd per_nfc per_nfkc sweep1_nfd sweep1_nfc sweep2_nfkd sweep2_nfc apart_nfc apart_nfd',
        thorough='nfkd2 run_nfkd nfkc2 nfkd3 nfc3',
        deep='',
        bounds='texts of 2 unrestricted characters (3 in the thorough tier), letter/mark segments, Hangul jamo, runs '
               'of 11 to 300 marks with 1 to 3 symbolic positions, periodic texts of 1 or 2 unrestricted characters, '
               '30 characters of text followed by 2 symbolic ones'
               '; every number of marks or segments to 20 before an unrestricted character'),
    'C17': dict(
        quick='nfd1 nfkd1 nfc1 nfkc1 cjk1 ss1 nfd2 nfc2 cjk2 ss2 nfd_l ss_l hist_nfd hist_nfkd hist_nfc hist_cjk run_ss per_nfd per_nfkc per_ss sweep1_nfd sweep2_nfkd sweep1_nfc sweep2_nfkc sweep3_cjk sweep0_ss apart_nfd apart_nfc',
        thorough='run_nfd nfkd2 nfc_l nfkc2 hist_nfkc run_nfc',
        deep='',
        bounds='every character; texts of 2 unrestricted characters; runs of 11 to 44 marks with 3 symbolic '
               'positions; periodic texts; 30 characters of text followed by 2 symbolic ones'
               '; every number of marks or segments to 20 (40) before an unrestricted character'),
    'C18': dict(
        quick='nfd nfkd nfc1 nfkc1 nfc_m nfkc_m nfd_l nfkd_l nfd2 is_nfd is_nfc1 run_nfd run_nfc hist_nfc hist_nfkd per_nfd per_nfc ages_nfd ages_nfkd ages_nfc sweep0_nfd sweep0_nfc sweep2_nfkd sweep2_nfkc ',
        thorough='ages_nfkc agesp_nfd sweep_is_nfc is_nfd_l is_nfkc1 sweep_is_nfd is_nfkd nfc_mm nfc_l is_nfc_m nfc2 per_nfkd per_nfkc agesp_nfc agesp_nfkd agesp_nfkc',
        deep='nfc nfkc is_nfc is_nfkc perm_nfc',
        bounds='segments of 1 or 2 unrestricted characters (or a letter with unrestricted marks, a run of 14 or 130 '
               'marks, one unrestricted character 30 times, 90 or 66000 characters of text) followed by segments of '
               '1 or 2 unrestricted characters'
               '; every number of marks or segments to 40 before a segment'),
    'C19': dict(
        quick='nfc4 nfkc4 nfd3 nfkd3 long_nfc long_nfkc long_nfd long_nfkd ages_nfd ages_nfkd ages_nfc ages_nfkc ages_ss_nfc ages_ss_nfd sweep_nfc sweep_nfkc sweep_nfd sweep_nfkd sweep_ss_nfd',
        thorough='sweep_ss_nfc ss_nfd3 long_ss_nfd mid_nfd ss_nfc3 mid_nfc long_ss_nfc',
        deep='',
        bounds='texts of 3 (for is_nfc_quick and is_nfkc_quick: 4) unrestricted characters; 300 characters of '
               'normalized text, then 3 unrestricted characters with 31 marks between them; 66000 characters of '
               'normalized text followed by 2 unrestricted ones'
               '; every number of marks (to 64) or segments (to 60) before an unrestricted character'),
    'C20': dict(
        quick='per_nfd per_nfkd per_nfc per_cjk per_ss seg_nfd seg_nfc seg_nfkc five_nfd five_nfc after_nfd after_nfc '
              'drop_nfd drop_nfc drop_nfkc ages_nfd ages_nfc ages_ss sweep2_nfkd sweep2_nfkc',
        thorough='per_nfkc sweep1_nfd sweep1_nfc two_nfc',
        deep='two_nfd',
        bounds='any character 260 times, any letter with any two marks 100 times, 60 times a run of 6 marks, 2 of '
               'them symbolic; 70 runs of 5 to 8 marks; 66000 characters of text and 2 unrestricted ones; the memory '
               'compared with 48 * (longest run + 24) bytes whenever the source is read and between characters, and '
               'with 0 after dropping at any point'
               '; every number of marks (to 64) or segments (to 40) before an unrestricted character'),
}

def names(prop, key):
    return [f'h_{prop.lower()}_{x}' for x in P[prop][key].split()]
