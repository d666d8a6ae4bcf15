"""Registered optimizers, by capability (all facts are about the pinned dependencies of the sandbox, not about the code under check)."""
import typing as tp
import warnings

import nevergrad as ng

BROKEN_IMPORTS = {"AX", "pysot"}  # optional dependency missing or incompatible
SLOW = {"AXP", "SMAC3", "PCABO", "PCABO80", "PCABO95DoE20", "BO", "BOSplit", "BayesOptimBO"}
RANDOM_FOREST = "RF"  # names of meta-models with random forests: about 0.1 s per ask
# Carola3 replaces the members of its portfolio: known finding of C16 with several workers
TWO_COBYLAS = {"NGOptF", "SplitCSEC11"}  # see known findings of C14
# members of the wrapped libraries which draw from the global random state (see the known findings of C12)
GLOBAL_RANDOM = set(
    "ChainDSPowell ChainMetaModelDSSQP DS3p DS14 DS4 DS5 DS6 DS8 DS9 DSproba MetaModelDSproba MultiDS PymooBIPOP PymooCMAES AXP SMAC3 NGOptF3".split()
)
# two live instances block each other (see the known findings of C14)
WITH_COBYLA = set(
    "CSEC CSEC10 CSEC11 Carola1 Carola10 Carola15 Carola2 Carola4 Carola5 Carola6 Carola8 Carola9 Cobyla DS2 DS4 DS5 DS6 DS8 DS9 NGO NGOptBase NGOptDSBase "
    "NgDS NgDS11 NgDS2 NgDS3 NgIoh10 NgIoh11 NgIoh12 NgIoh12b NgIoh13 NgIoh13b NgIoh14 NgIoh14b NgIoh15 NgIoh15b NgIoh16 NgIoh17 NgIoh18 NgIoh19 NgIoh20 NgIoh21 "
    "NgIoh4 NgIoh5 NgIoh6 NgIoh7 NgIoh8 NgIoh9 NgIohLn NgIohMLn NgIohRS NgIohTuned PCarola6 RCobyla Shiwa Wiz pCarola6".split()
)
# the wrapped library cannot be pickled, or replayed
NOT_PICKLABLE = GLOBAL_RANDOM | {"BayesOptimBO", "PCABO", "PCABO80", "PCABO95", "PCABO95DoE20", "FCMA", "FCMAp13", "FCMAs03", "NGOptF5", "NLOPT_LN_NEWUOA_BOUND"}

# more than about 2 ms per ask
MEDIUM = set(
    "ASCMADEthird BAR BAR2 BAR3 BAR4 BFGSCMA BFGSCMAPlus CLengler CM CMA CMAILL CMAL CMAL2 CMAL3 CMALL CMALS CMALYS CMALn CMARS CMASL CMASL2 CMASL3 "
    "CMAbounded CMApara CMAsmall CMAstd CMAtuning CMandAS2 CMandAS3 CSEC CSEC10 CSEC11 Carola1 Carola10 Carola11 Carola13 Carola14 Carola15 Carola2 Carola3 "
    "Carola4 Carola5 Carola6 Carola7 Carola8 Carola9 ChainCMAPowell ChainCMASQP ChainCMAwithLHS ChainCMAwithLHS30 ChainCMAwithLHSdim ChainCMAwithLHSsqrt "
    "ChainCMAwithMetaRecentering ChainCMAwithR30 ChainDEwithMetaTuneRecenteringdim ChainDEwithMetaTuneRecenteringsqrt ChainDEwithR ChainMetaModelDSSQP "
    "ChainPSOwithLHS DS4 DS6 F2SQPCMA F3SQPCMA FCMA HSDE HSMetaModel HyperOpt LSCMA LogMultiBFGS LogMultiBFGSPlus LogSQPCMA MetaModel MetaModelDSproba "
    "MetaModelDiagonalCMA MetaModelOnePlusOne MetaNGOpt10 MultiBFGS MultiBFGSPlus NGOpt NGOpt10 NGOpt15 NGOpt36 NGOptRW NGOptSingle16 NGOptSingle25 "
    "NGOptSingle9 NLOPT_LN_NEWUOA_BOUND NeuralMetaModel NeuralMetaModelDE NeuralMetaModelTwoPointsDE NgIohLn NgIohMLn NgIohRS NgLn NgRS NoisyOnePlusOne "
    "ParaPortfolio PolyCMA PolyLN RPowell RSQP RandRecombiningDiscreteLenglerOnePlusOne RecombiningDiscreteLognormalOnePlusOne SQOPSODCMA20 SQOPSODCMA20bar "
    "SQPCMA SmallLognormalDiscreteOnePlusOne SmoothAdaptiveDiscreteOnePlusOne SmoothDiscreteLenglerOnePlusOne SparseDiscreteOnePlusOne TripleCMA "
    "UltraSmoothDiscreteLognormalOnePlusOne Wiz XLognormalDiscreteOnePlusOne XSmallLognormalDiscreteOnePlusOne ".split()
)


def names(slow: bool = False) -> tp.List[str]:
    out = []
    for name in sorted(ng.optimizers.registry):
        if name in BROKEN_IMPORTS or name in TWO_COBYLAS:
            continue
        if not slow and (name in SLOW or name.startswith(RANDOM_FOREST)):
            continue
        out.append(name)
    return out


def create(name: str, param: tp.Any, budget: int = 30, num_workers: int = 1) -> tp.Any:
    cls = ng.optimizers.registry[name]
    if name == "Carola3" or num_workers > 1 and cls.no_parallelization:
        num_workers = 1
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if num_workers > 1:
            try:
                return cls(param, budget=budget, num_workers=num_workers)
            except Exception:  # combined with a member which cannot be parallelized
                pass
        return cls(param, budget=budget, num_workers=1)


def chunks(items: tp.List[str], n: int) -> tp.List[tp.List[str]]:
    return [items[k::n] for k in range(n)]


# several members of a chain are COBYLA for these budgets (see the known findings of C14)
TWO_COBYLAS_LATER = {"NgIohMLn", "NgDS3", "NgIohLn", "NgIohRS"}
# SMAC inside
UNSTABLE = {"NGOptF3", "NLOPT_LN_NEWUOA_BOUND"}
OVER_BUDGET = "Over the budget"

Value = tp.Any
NORMAL = [3.0, 1.0, 2.0, 0.5, 4.0, 0.5, 0.1, 2.5]
ABNORMAL: tp.Dict[str, float] = {
    "zero": 0.0,
    "nan": float("nan"),
    "inf": float("inf"),
    "-inf": -float("inf"),
    "huge": 1e300,
    "-huge": -1e300,
}


def pattern_loss(pattern: tp.Tuple[str, str], k: int, number: int) -> float:
    """k-th loss of a history where normal losses are replaced by an abnormal one"""
    where, what = pattern
    replaced = {
        "normal": False,
        "all": True,
        "odd": bool(k % 2),
        "first": k == 0,
        "second": k == 1,
        "after": k >= number // 2,
        "before": k < number // 2,
        "sparse": k % 5 == 3,
        "but one": k != number // 2,
    }[where]
    return ABNORMAL[what] if replaced else NORMAL[k % 8]


class Run:
    """An optimization which is driven step by step, with everything which was asked and told"""

    def __init__(self, name: str, param: tp.Any, budget: int, workers: int, seed: int = 12) -> None:
        self.name = name
        self.opt = create(name, param, budget=budget, num_workers=workers)
        self.opt.parametrization.random_state.seed(seed)
        self.pending: tp.List[tp.Any] = []
        self.told: tp.List[tp.Tuple[tp.Any, float]] = []

    def ask(self) -> tp.Any:
        cand = self.opt.ask()
        self.pending.append(cand)
        return cand

    def tell(self, loss: tp.Any, index: int = 0) -> None:
        cand = self.pending.pop(index)
        self.opt.tell(cand, loss)
        self.told.append((cand, loss))
