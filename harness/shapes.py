"Classes of all shapes: plain, frozen, slotted, derived, nested, recursive data classes, named tuples, annotated classes."

import datetime
import ipaddress
import uuid
from dataclasses import InitVar, dataclass, field
from typing import Annotated, ClassVar, Literal, NamedTuple, Optional, Union

from strong_typing.auxiliary import Alias, MaxLength, int16

from .inherited import Grandchild, Heir
from .kit import Color, Level


@dataclass
class Plain:
    number: int
    text: str
    flag: bool


@dataclass
class Empty:
    pass


@dataclass
class Scalars:
    f: float
    data: bytes
    color: Color
    level: Level
    literal: Literal["x", "y"]


@dataclass
class Times:
    when: datetime.datetime
    day: datetime.date
    clock: datetime.time
    span: datetime.timedelta


@dataclass
class Identities:
    ident: uuid.UUID
    four: ipaddress.IPv4Address
    six: ipaddress.IPv6Address


@dataclass(frozen=True)
class Frozen:
    number: int
    text: Optional[str]


@dataclass(frozen=True)
class FrozenDefaults:
    number: int = 3
    items: tuple[int, str] = (1, "x")
    maybe: Optional[str] = None


@dataclass(slots=True)
class Slotted:
    number: int
    text: Optional[str] = None


@dataclass(frozen=True, slots=True)
class FrozenSlotted:
    number: int
    text: str


@dataclass
class Base:
    base: int
    shared: Optional[str]


@dataclass
class Derived(Base):
    derived: str
    more: Optional[bool] = None


@dataclass
class Derived2(Derived):
    last: list[int] = field(default_factory=list)


@dataclass
class Overriding(Base):
    base: str  # type: ignore
    own: int


@dataclass(kw_only=True)
class KeywordOnly:
    default: int = 1
    required: str


@dataclass
class Optionals:
    a: Optional[int]
    b: Optional[str] = None
    c: Union[bool, None] = None
    d: Optional[list[int]] = None


@dataclass
class NewOptionals:
    a: int | None
    b: str | None = None
    c: None | list[str] = None


@dataclass
class Defaults:
    a: int = 23
    b: str = "default"
    c: bool = True
    d: float = 0.5


@dataclass
class FalsyDefaults:
    a: int = 0
    b: str = ""
    c: bool = False
    d: Optional[int] = 0


@dataclass
class Factories:
    a: list[int] = field(default_factory=list)
    b: dict[str, int] = field(default_factory=dict)
    c: set[str] = field(default_factory=set)


@dataclass
class FilledFactories:
    a: list[int] = field(default_factory=lambda: [1, 2])
    b: dict[str, str] = field(default_factory=lambda: {"k": "v"})


@dataclass
class Named:
    class_: int
    from_: Optional[str]
    def_: list[int]
    under_score: bool


@dataclass
class Aliased:
    first: Annotated[int, Alias("alpha-beta")]
    second: Annotated[Optional[str], Alias("$second")] = None
    third: Annotated[list[int], Alias("third[]")] = field(default_factory=list)


@dataclass
class Swapped:
    "Aliases that are names of other fields."

    a: Annotated[int, Alias("b")]
    b: Annotated[str, Alias("a")]


@dataclass
class Annotations:
    small: int16
    short: Annotated[str, MaxLength(4)]
    noted: Annotated[list[str], "note"]


@dataclass
class Outer:
    inner: Plain
    items: list[Frozen]


@dataclass
class Lookup:
    table: dict[str, Base]
    keyed: dict[Color, Optional[int]]


@dataclass
class OptionalInner:
    inner: Optional[Plain]
    pair: tuple[Frozen, int]


@dataclass
class Unions:
    a: Union[int, str]
    b: Union[Frozen, list[int]]
    c: Optional[Union[bool, str]] = None


@dataclass
class Chain:
    value: int
    next: Optional["Chain"]


@dataclass
class Tree:
    value: int
    children: list["Tree"]


@dataclass
class Graph:
    name: str
    edges: dict[str, "Graph"] = field(default_factory=dict)


@dataclass
class Ping:
    number: int
    pong: Optional["Pong"]


@dataclass
class Pong:
    text: str
    ping: Optional[Ping]


class Pair(NamedTuple):
    first: int
    second: str


class PairDefaults(NamedTuple):
    first: int
    second: Optional[str] = None
    third: int = 7


class PairNamed(NamedTuple):
    class_: int
    aliased: Annotated[Optional[str], Alias("other")]


class PairNested(NamedTuple):
    plain: Plain
    items: list[int]


@dataclass
class HasPair:
    pair: Pair
    pairs: list[PairDefaults]


@dataclass
class Hollow:
    "Instances may serialize to an empty object."

    a: Optional[int] = None
    b: Optional[str] = None


@dataclass
class HoldsHollow:
    inner: Hollow
    maybe: Optional[Hollow]
    items: list[Hollow]
    empty: Empty
    table: dict[str, Hollow] = field(default_factory=dict)


@dataclass
class HoldsEmpty:
    "Containers and scalars that are false."

    items: list[int]
    table: dict[str, int]
    maybe: Optional[list[int]]
    maybe_dict: Optional[dict[str, str]]


@dataclass
class HoldsFalse:
    text: Optional[str]
    number: Optional[int]
    flag: Optional[bool]
    real: Optional[float]
    data: Optional[bytes]
    pair: tuple[int, list[int]]


@dataclass
class EnumDefaults:
    color: Color = Color.GREEN
    maybe: Optional[Color] = None
    level: Optional[Level] = Level.LOW
    literal: Literal["x", "y"] = "y"
    pair: tuple[int, str] = (1, "x")
    none: Optional[int] = field(default_factory=lambda: None)


@dataclass
class Underscored:
    _private: int
    trailing_: str
    class__: bool
    Mixed_Case9: Optional[int] = None


@dataclass
class TagA:
    kind: Literal["a"]
    x: int


@dataclass
class TagB:
    kind: Literal["b", ""]
    x: Optional[int] = None


@dataclass
class HoldsTagged:
    shape: Union[TagA, TagB]
    maybe: Optional[Union[TagA, TagB]]
    items: list[Union[TagB, TagA]]


class Annotated1:
    number: int
    text: str


class Annotated2:
    maybe: Optional[int]
    class_: str
    inner: list[Plain]


class Annotated3(Annotated1):
    extra: Optional[bool]


@dataclass(frozen=True)
class Awkward:
    "Has fields named like common parameters and variables."

    self: int
    data: Optional[str]
    typ: bool = False


class AwkwardPair(NamedTuple):
    self: int
    count: "Optional[int]" = None


class AwkwardPlain:
    self: int
    obj: Optional[str]


@dataclass
class Trouble(Exception):
    "An error with data."

    code: int
    text: Optional[str] = None


@dataclass(frozen=True)
class FrozenTrouble(ValueError):
    code: int
    text: str = "trouble"


class PlainTrouble(LookupError):
    "An error with data of its own."

    code: int
    where: Optional[list[int]]

    def __init__(self, code=0, where=None):
        super().__init__("trouble")
        self.code, self.where = code, where


class Tally:
    "Has class variables next to properties."

    limit: ClassVar[int] = 9
    names: "ClassVar[list[str]]" = []
    number: int
    registry: ClassVar = None
    text: "Optional[str]"


@dataclass
class Counted:
    "Has members that are not fields."

    total: ClassVar[int] = 7
    limits: "ClassVar[list[str]]" = []
    size = 5
    number: "int"
    text: "Optional[str]" = None

    @property
    def double(self):
        return 2 * self.number

    def method(self):
        return self.double

    @staticmethod
    def helper():
        return None


@dataclass(frozen=True)
class Computed:
    "Has fields that are not given to the initializer."

    number: int
    double: int = field(init=False)
    fixed: str = field(init=False, default="x")
    items: list[int] = field(init=False, default_factory=list)
    maybe: Optional[str] = None

    def __post_init__(self):
        object.__setattr__(self, "double", 2 * self.number)


@dataclass
class Uninitialized:
    "Has an initializer with other parameters than fields."

    start: InitVar[int]
    number: int = field(init=False)
    text: str = field(init=False, default="x")
    hidden: Optional[int] = field(default=None, repr=False, compare=True)

    EXTRA = {"start": 1}

    def __post_init__(self, start):
        self.number = start


FLAT = [
    Plain, Empty, Scalars, Times, Identities, Frozen, FrozenDefaults, Slotted, FrozenSlotted, Base, Derived, Derived2, Overriding, KeywordOnly, Optionals,
    NewOptionals, Defaults, FalsyDefaults, Factories, FilledFactories, Named, Aliased, Swapped, Annotations, Pair, PairDefaults, PairNamed, Annotated1, Annotated3,
    Hollow, EnumDefaults, Underscored, TagA, TagB, Counted, Computed, Uninitialized, Tally, Awkward, AwkwardPair, AwkwardPlain,
    Trouble, FrozenTrouble, PlainTrouble,
]  # fmt: skip
NESTED = [Outer, Lookup, OptionalInner, Unions, PairNested, HasPair, Annotated2, HoldsHollow, HoldsEmpty, HoldsFalse, HoldsTagged, Heir, Grandchild]
RECURSIVE = [Chain, Tree, Graph, Ping, Pong]
