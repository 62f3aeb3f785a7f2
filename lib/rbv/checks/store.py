"""Model checking shared by C06, C07 and C20."""
from .. import tlc
from ..report import THOROUGH


def model(rep):
    r = tlc.run("Store", {"NPieces": 3 if THOROUGH else 2, "MaxKills": 3 if THOROUGH else 2, "MaxDamage": 2 if THOROUGH else 1,
                          "Answers": {"good", "wrong", "none"}},
                invariants=["Inv_OnlyRight", "Inv_NoNeedlessAsk", "Inv_NoBadBytes", "Inv_KeepsGood"],
                properties=["Act_NeverUndone", "Live_Completes", "Live_Saved"], workers=6)
    rep.model("Store", r, "adoption, saving, piece writing and kills at any step")
