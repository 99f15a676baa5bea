class Run:
    """One symbolic execution: an entry point of a harness with concrete parameters."""
    def __init__(self, variant, entry, *args, max_time=None, opts=(), label=None, confirm=None, confirm_args=None, custom=None, need="end", soft=False):
        self.variant, self.entry, self.args = variant, entry, list(args)
        self.max_time, self.opts, self.label = max_time, list(opts), label or "%s(%s)" % (entry, ",".join(map(str, args)))
        self.confirm, self.confirm_args = confirm, confirm_args  # native entry that confirms a missing outcome
        self.custom = custom  # evaluates the result instead of the generic rules
        self.need = need      # a cover point that must be reached
        self.soft = soft      # over-approximates: a counterexample counts only if the real code shows it
        self.res = None
