"""C24: engines of a fit."""
import fitting
def main(c):
    c.model("FittingLaws", "FittingLaws.cfg", min_states=30)
    c.model("FittingLaws", "FittingLaws_lost.cfg", expect_violation="ResultKept")
    fitting.run(c, "fit", 12000 if c.thorough else 2000)
