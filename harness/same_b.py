"Classes that another module has under the same names."

import enum
from dataclasses import dataclass, field
from typing import Literal, NamedTuple, Optional


class Kind(enum.Enum):
    X = "xx"
    Z = "z"


@dataclass
class Item:
    text: str
    kind: Optional[Kind] = None


@dataclass
class Holder:
    item: "Item"
    items: list["Item"] = field(default_factory=list)


@dataclass
class Loop:
    text: str
    next: Optional["Loop"] = None


class Tup(NamedTuple):
    first: str
    item: "Item"


@dataclass
class Tagged:
    tag: Literal["b"]
    x: int
