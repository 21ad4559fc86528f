"""Fork names and ordering (mainnet upgrade order)."""
NAMES = [
    "frontier", "homestead", "dao_fork", "tangerine_whistle",
    "spurious_dragon", "byzantium", "constantinople", "istanbul",
    "muir_glacier", "berlin", "london", "arrow_glacier", "gray_glacier",
    "paris", "shanghai", "cancun", "prague", "osaka",
]
IDX = {n: i for i, n in enumerate(NAMES)}
(FRONTIER, HOMESTEAD, DAO, TANGERINE, SPURIOUS, BYZANTIUM, CONSTANTINOPLE,
 ISTANBUL, MUIR, BERLIN, LONDON, ARROW, GRAY, PARIS, SHANGHAI, CANCUN,
 PRAGUE, OSAKA) = range(18)

POW = [n for n in NAMES if IDX[n] < PARIS]
POS = [n for n in NAMES if IDX[n] >= PARIS]

BLOCK_REWARD = {}
for _n, _i in IDX.items():
    BLOCK_REWARD[_n] = (
        5 * 10**18 if _i < BYZANTIUM else
        3 * 10**18 if _i < CONSTANTINOPLE else
        2 * 10**18 if _i < PARIS else 0)
# EIP-649, 1234, 2384, 3554, 4345, 5133
BOMB_DELAY = {BYZANTIUM: 3_000_000, CONSTANTINOPLE: 5_000_000,
              ISTANBUL: 5_000_000, MUIR: 9_000_000, BERLIN: 9_000_000,
              LONDON: 9_700_000, ARROW: 10_700_000, GRAY: 11_400_000}
