NOTES = ('Deterministic simulation with fault injection: every check builds /repo into a scratch directory, executes '
         'seeded plans (operations, faults, thread switches) in forked processes and compares with an independent '
         'reference model. See DESIGN.md.')


def claim(pid, tech):
    CLAIMED.append(dict(property=pid, quick_cmd='bash check.sh %s quick' % pid,
                        thorough_cmd='bash check.sh %s thorough' % pid, evidence_file='evidence/%s.json' % pid,
                        level='exploration', technique='deterministic simulation: ' + tech, level_note=LEVEL))


LEVEL = ('seeded search over operations, faults and schedules; a pass means no violation in the runs of this seed, '
         'not absence')


claim('P01', 'seeded operation histories with injected exceptions at instruction ticks; every live function and caller '
             'array is compared bit for bit before and after each operation')
claim('P02', 'seeded operation histories; after each operation every result, operand and caller array is written to in '
             'turn and all the others must not move')
claim('P03', 'seeded operation histories checked operation by operation against an independent Chebyshev/Fourier '
             'reference model (values, well-formedness, refusals, step bounds)')
claim('P04', 'seeded operation histories with exceptions injected at chosen ticks inside operations, followed by state '
             'comparison and a retry compared with the fault-free run')
claim('P05', 'seeded schedules of real threads run one at a time under a scheduler that switches at instruction ticks, '
             'with exceptions injected into some of the threads; results compared bit for bit with each thread alone')
claim('P06', 'seeded histories of grid, weight and matrix requests with overwritten answers and interrupted requests, '
             'each answer compared with closed forms')
claim('P07', 'seeded save/load/update histories on a simulated disk with failing requests, full and flaky disks, and process death at any write; what loads is compared with what was saved completely')
claim('P11', 'deterministic simulation: seeded histories of requests to several live operators, interrupted at scheduled source lines and retried; every answer compared with a freshly built operator and with an independent evaluation of the equation')
claim('P08', 'the same seeded program (with injected exceptions) executed in a clean process and under altered ambient state (poisoned memory, hash seed, allocator, clocks, random seeds, error handling, filters, earlier interrupted work, threads); results and process settings compared')
claim('P13', 'seeded histories of state arithmetic with exceptions injected at instruction ticks and writes to single objects; every result compared componentwise with an independent model, every other state, function and parameter bit for bit')
claim('P12', 'seeded histories of interleaved, nested, abandoned and interrupted iterations over shared functions and states, and seeded schedules of threads iterating them; every column handed out compared with the column at its position')
claim('P14', 'seeded scripts of inner outcomes (accepted with a given error, refused with garbage or NaN, exception) driven through the real adaptive driver, some interrupted; guesses, resolutions, stopping and the returned state judged from the log')
claim('P10', 'seeded histories of nonlinear solves against simulated systems whose residuals, linear solves, preconditioner, callback, inner product or a source line fail on schedule; success judged by the residual, retries by a first attempt in a fresh process')
claim('P09', 'deterministic simulation with fault injection: seeded constructions from simulated callbacks that raise, return garbage, keep state, re-enter the library or are interrupted at chosen source lines; checked against the exact target, the sampling bound and a fresh process')
claim('P15', 'seeded histories of deflated searches by real seekers on simulated operators with known solutions (and real operators), with evaluation errors, NaN residuals, singular systems and interruptions; the list of known solutions, the answers and the deflated systems judged against an independent model')
claim('P16', 'seeded histories of questions, row and column replacements, preparations and failures of several factored and bordered solvers that share core solvers, with core solver failures and interruptions at chosen points; every answer judged against dense solutions of the matrix the model says the solver stands for')
NA = {
 'P20': NA_REASON + 'Construction under misbehaving callbacks, where faults do enter, is P09; values reached by histories are P03.',
 'P21': NA_REASON + 'That these queries leave their operand alone, also when interrupted or run concurrently, is P01, P04 and P05.',
 'P22': NA_REASON + 'Consistency of coefficients, values and evaluation along histories is part of P03.',
 'P23': NA_REASON + 'Isolation of the operand is P01.',
 'P24': NA_REASON + 'Answers along histories, for matrices of moderate condition, are P16.',
 'P25': NA_REASON + 'A wrong derivative that spoils a solve is visible to P11.',
 'P26': NA_REASON + 'History independence of the memoised matrices is P06.',
 'P27': NA_REASON + 'Values of norms and inner products along histories are part of P03 and P13.',
}
