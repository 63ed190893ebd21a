T = 'stateless model checking of the real application under a controlled scheduler: all schedules within a preemption bound'
APP = {
 'C15': T + ', rows matched against the sampled states',
 'C16': T + ', rows matched against the final states of the trajectories',
 'C17': T + ', averages recomputed from all samples',
 'C18': T + ', and all sequences of invocations up to a depth',
 'C19': 'exhaustive enumeration of period/step/start/end grids on the real application, log rows matched against every state of the trajectory',
 'C20': 'exhaustive enumeration of sets of log files up to a size on the real application',
 'C21': 'exhaustive enumeration of sets of log files up to a size on the real application',
 'C22': 'exhaustive enumeration of targets and mean-energy curves on the real fits with controlled sample energies',
 'C24': 'exhaustive enumeration of command lines (modes, pairs of modes, overrides, spellings) on the real application with recorded effects',
 'C25': 'fault enumeration as model checking: a crash before, inside and after every file operation of every trajectory mode, followed by recovery, and pairs of crashes',
 'C26': T + ' and all modes and pairs of modes, all earlier logs compared byte by byte',
 'C27': 'exhaustive enumeration of scripts of sampled states on the real histogram code, rows matched against the recorded states and acceptances',
 'C28': T + ' and all modes, every Monte-Carlo update and every chain recorded',
 'C29': T + ', mean recomputed from every state of every trajectory',
 'C30': 'exhaustive enumeration of refused command lines and corrupted configurations on the real application and the real program, directory compared byte by byte',
}
