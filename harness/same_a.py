"Classes that another module has under the same names."

import enum
from dataclasses import dataclass, field
from typing import Literal, NamedTuple, Optional


class Kind(enum.Enum):
    X = "x"
    Y = "y"


@dataclass
class Item:
    number: int
    kind: Optional[Kind] = None


@dataclass
class Holder:
    item: "Item"
    items: list["Item"] = field(default_factory=list)


@dataclass
class Loop:
    value: int
    next: Optional["Loop"] = None


class Tup(NamedTuple):
    first: int
    item: "Item"


@dataclass
class Tagged:
    tag: Literal["a"]
    x: int


@dataclass
class Broken:
    "Cannot be built for want of the type of a field."

    loop: Optional["Broken"]
    bad: "NoSuchName"  # type: ignore # noqa: F821


@dataclass
class Bystander:
    "Refers to a class that cannot be built."

    number: int
    broken: Optional["Broken"] = None


@dataclass
class Mutual1:
    number: int
    other: Optional["Mutual2"] = None


@dataclass
class Mutual2:
    text: str
    other: Optional["Mutual1"] = None
