# Per property: runs and seconds per tier, the build that decides it, and the
# text used in MANIFEST.json.
PROPS = {
    'P01': {'quick': (12000, 60), 'thorough': (400000, 700),
            'technique': 'seeded histories of real IRM/HIRM models, each cluster compared with a fresh rebuild after every step',
            'note': 'Random histories only; noise models whose shares depend on arrival order are compared by count and by exact undo, not by score.'},
    'P02': {'quick': (12000, 60), 'thorough': (400000, 700),
            'technique': 'seeded histories of real IRM/HIRM models, all indexes recomputed from the data after every step',
            'note': 'Random histories over up to three domains, seven relations and about five entities per domain.'},
    'P03': {'quick': (12000, 60), 'thorough': (400000, 700),
            'technique': 'seeded histories of real IRM/HIRM models against a mirror of the data',
            'note': 'Random histories; the mirror holds what was given, the model is compared after every step.'},
    'P04': {'quick': (4000, 60), 'thorough': (150000, 700),
            'technique': 'seeded states reached by histories of real IRM models; the sampler is re-run from each state many times and its frequencies compared with exp(joint score) of every possible result',
            'note': 'Random states with up to about five entities per domain; deviations below the power of the goodness-of-fit test (about 1e-2 in probability) are not seen.'},
    'P05': {'quick': (700, 60), 'thorough': (20000, 700),
            'technique': 'long seeded runs of the real inference kernels on enumerable models, visit frequencies compared with the enumerated posterior',
            'note': 'Models small enough to enumerate; small biases below the power of the test are not seen.'},
    'P06': {'quick': (8000, 60), 'thorough': (250000, 700),
            'technique': 'seeded histories of real IRM/HIRM models with latent values; each latent move compared with rebuilt statistics and exact conditional',
            'note': 'Random histories; frequencies are compared at probed cells only.'},
    'P07': {'quick': (4000, 60), 'thorough': (120000, 700),
            'technique': 'seeded histories of single distributions, noise models, CRPs and whole models; hyperparameter draws compared with exp(score) over the grid, everything else compared before and after',
            'note': 'Deviations below the power of the goodness-of-fit test are not seen; at most twelve parameter groups per noise model are followed.'},
    'P09': {'quick': (8000, 60), 'thorough': (250000, 700),
            'technique': 'seeded models and budgets under a simulated processor clock that advances with the work done, jumps, stalls or is missing; the result is matched with the results of whole numbers of sweeps',
            'note': 'Up to about 24 sweeps of small models.'},
    'P08': {'quick': (2400, 60), 'thorough': (60000, 700),
            'technique': 'seeded input files and options for the real hirm and pclean programs, each run again under a different clock, heap and stack content, environment, location, verbosity and read/write splitting; all result files compared byte by byte',
            'note': 'Small random inputs and at most three iterations per run.'},
    'P10': {'quick': (6000, 60), 'thorough': (200000, 700),
            'technique': 'seeded runs of the real hirm program; the saved clusters are loaded and saved again by a new process with another seed, and the loaded model is inspected and inference continued in a third',
            'note': 'Small random inputs; hirm only (pclean has no way to load clusters).'},
    'P11': {'quick': (2400, 60), 'thorough': (60000, 700),
            'technique': 'seeded runs of the real programs and readers with reads and writes split at random and interrupted; contents compared with the plan and result files with an undisturbed run',
            'note': 'Small random inputs.'},
    'P12': {'quick': (1800, 60), 'thorough': (40000, 700),
            'technique': 'seeded injection of failing opens, reads, writes, closes and allocations at random points of real program runs; exit status and result files compared with an undisturbed run',
            'note': 'An allocation failure that leaves results intact may end in status zero; standard output is not checked.'},
    'P13': {'quick': (1800, 60), 'thorough': (40000, 700),
            'technique': 'seeded kills of real program runs at random opens, reads, writes (some torn) and allocations, with remnants of earlier runs present; rerun and compared byte by byte',
            'note': 'Files survive a kill as the kernel had them; loss of unsynced data by a machine crash is not part of the property.'},
    'P14': {'quick': (8000, 60), 'thorough': (250000, 700),
            'technique': 'seeded class schemas and table histories on the real GenDB; after every reference move all reference counts, cell addresses and model indexes are recomputed from the reference table',
            'note': 'Schemas of up to four classes and about nine rows; that moves have the right frequencies is not part of this property.'},
    'P15': {'quick': (8000, 60), 'thorough': (250000, 700),
            'technique': 'seeded class schemas and table histories on the real GenDB beside a mirror of the rows, compared after every step',
            'note': 'Schemas of up to four classes and about nine rows.'},
    'P16': {'quick': (8000, 60), 'thorough': (250000, 700),
            'technique': 'seeded histories of real HIRM models with forward sampling at several points; cells before and after compared, values compared with the support and the predictive frequencies of their cluster',
            'note': 'Random histories; frequencies are compared for discrete relations only.'},
    'P17': {'quick': (6000, 60), 'thorough': (120000, 700),
            'technique': 'seeded schemas and data through the real hirm and pclean programs; the sample files are parsed by independent readers, read back by the program\'s own (hirm: learned from together with the data in a second process), and a probe inside the pclean run watches the rows and cells that sampling touches',
            'note': 'Small random schemas; up to four samples per run (hirm: up to forty per relation).'},
    'P18': {'quick': (8000, 60), 'thorough': (300000, 700),
            'technique': 'seeded histories of real IRM/HIRM models run beside a twin that is never queried; answers compared with an independent sum over cluster assignments and with normalisation',
            'note': 'With several new entities in one domain only normalisation is checked.'},
    'P19': {'quick': (16000, 60), 'thorough': (600000, 700),
            'technique': 'seeded histories of single distributions, noise models and CRPs, rebuilt in other orders with interleaved retractions and compared with the chain rule',
            'note': 'Histories of up to 30 (thorough 60) steps over moderate values.'},
    'P20': {'quick': (16000, 60), 'thorough': (600000, 700),
            'technique': 'seeded histories of single distributions, noise models and CRPs; the state is fingerprinted around every undo and query',
            'note': 'A state is identified by its count, score and the predictions of eight fixed values.'},
    'P21': {'quick': (8000, 60), 'thorough': (300000, 700),
            'technique': 'seeded histories of single distributions, noise models and CRPs; seeded samples compared with the stated predictive probabilities',
            'note': 'Deviations below the power of the goodness-of-fit test (about 2e-2 in probability for one bin) are not seen.'},
    'P23': {'quick': (2400, 60), 'thorough': (60000, 700), 'build': 'python',
            'technique': 'seeded histories of Python models; at random points the process "crashes" and a separate interpreter with another hash order and another shared generator restores the saved form and goes on, compared step by step with the run that never stopped',
            'note': 'Random histories over up to three domains, six relations and 25 items per domain.'},
    'P24': {'quick': (160, 120), 'thorough': (2500, 750),
            'technique': 'seeded GenDB histories; from a reached state the move of one reference is executed thousands of times in forked copies of the simulator, and again from the states it leads to, and the frequencies there and back are compared with the ratio of the scores',
            'note': 'Schemas of truth values of up to three levels and four rows; imbalances below the power of the test (about a quarter in the ratio of two frequent states) are not seen.'},
    'P27': {'quick': (4000, 90), 'thorough': (120000, 700), 'build': 'asan',
            'technique': 'seeded damage (cuts, lost, zeroed, repeated, exchanged and changed bytes and lines, splices of versions) to each file the real programs read, in a build with checked memory accesses; exit status judged by independent readers of each format',
            'note': 'Small random inputs; numbers of more than three digits in schemas are left out; values of string_* and typo_* columns are judged by their characters only.'},
    'P28': {'quick': (5000, 70), 'thorough': (150000, 700),
            'technique': 'seeded whole-program runs with held-out files; the printed likelihood compared with one computed from the data of the model in the process, with the sum over all values of the held-out cells, with a run that loads the saved clusters, and the saved results with those of runs with other or no held-out data',
            'note': 'The exact value is not computed where two held-out lines can fall into one block, for two unseen entities of one domain, and for skellam relations (only the sum over values); pclean is compared as a difference of scores.'},
    'P25': {'quick': (1000, 60), 'thorough': (40000, 700), 'build': 'python',
            'technique': 'seeded histories of Python models; at random points the generator\'s deciding draw is pinned and swept, which gives the exact law of the next operation, compared with joint scores recomputed from scratch',
            'note': 'Random states; deviations below 2e-4 in probability are not seen.'},
    'P26': {'quick': (5000, 60), 'thorough': (200000, 700), 'build': 'python',
            'technique': 'seeded histories of Python models against a mirror of the data, everything recomputed from the data after every step',
            'note': 'Random histories over up to three domains, six relations and 25 items per domain.'},
    'P22': {'quick': (1600, 150), 'thorough': (60000, 700), 'build': 'asan',
            'technique': 'the seeded histories, program runs and injected faults (I/O, clock, kills, allocations) of the other properties, executed in a build whose every memory access, container access and arithmetic step is checked; histories are repeated to count what they leave allocated',
            'note': 'Reads of uninitialised memory are not detected here (P08 compares runs over differently filled memory instead); leaks are counted for in-process models, not for whole programs.'},
}
