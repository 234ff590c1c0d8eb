import decimal

# Nothing the library does may depend on the application's decimal context.
CONTEXTS = {
    'low': decimal.Context(prec=3, Emax=20, Emin=-20),
    'strict': decimal.Context(prec=1, traps=[decimal.InvalidOperation, decimal.Inexact, decimal.Rounded, decimal.Overflow, decimal.Underflow,
                                             decimal.Subnormal, decimal.Clamped]),
    'small': decimal.Context(prec=2, Emax=1, Emin=-1, capitals=0),
}


class Family(object):
    name = None
    module = None

    def go(self, recipe):
        """run, in the decimal context of the recipe."""
        ctx = recipe.get('ctx')
        if not ctx:
            return self.run(recipe)
        with decimal.localcontext(CONTEXTS[ctx]):
            return self.run(recipe)

    def recipes(self, prop, rng, share, shares, tier):
        raise NotImplementedError

    def run(self, recipe):
        raise NotImplementedError

    def script(self, prop, model, rec):
        """The recipes that a behaviour of a model amounts to."""
        raise NotImplementedError

    def counts(self, prop, recipe, record):
        """Does this rejection speak against prop?"""
        return True

    def baseline(self, prop, recipe):
        """A recipe that has to be accepted for a rejection of this one to count, or None."""
        return None

    def features(self, recipe, case):
        return ()

    def show(self, recipe, case):
        return {'recipe': recipe, 'case': case}


def budget(tier, quick, shares, factor=12):
    return (quick if tier != 'thorough' else quick * factor) // shares
