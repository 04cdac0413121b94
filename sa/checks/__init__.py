REG = {
    'C01': ('rk', 'order_conditions'),
    'C02': ('rosenbrock', 'w_conditions'),
    'C03': ('estimate', 'error_estimate'),
    'C04': ('protocol', 'notify'),
    'C05': ('protocol', 'commit'),
    'C06': ('protocol', 'event'),
    'C07': ('protocol', 'control'),
    'C08': ('protocol', 'restart'),
    'C09': ('extrap', 'extrapolation'),
    'C11': ('eventctl', 'event_control'),
    'C12': ('stepsize', 'step_size_control'),
    'C10': ('euler', 'implicit_euler'),
    'C13': ('lu', 'factorizer'),
    'C14': ('newton', 'newton_run'),
    'C15': ('newton', 'newton_iteration'),
    'C16': ('linalg', 'vectors'),
    'C18': ('jacobian', 'jacobians'),
    'C19': ('ddir', 'directions'),
    'C20': ('adapters', 'adapters'),
    'C21': ('params', 'params'),
    'C22': ('driver', 'driver'),
    'C23': ('observers', 'observers'),
    'C24': ('outputs', 'outputs'),
    'C17': ('linalg', 'matrices'),
}
