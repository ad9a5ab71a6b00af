"Classes with fields inherited from classes of another module, in which names mean something else."

import enum
from dataclasses import dataclass, field
from typing import Optional

from . import same_a, same_b


class Kind(enum.Enum):
    P = "p"


@dataclass
class Item:
    flag: bool


@dataclass
class Heir(same_a.Holder):
    "Has an item of its own and those of its base."

    own: "Optional[Item]" = None
    more: list[Item] = field(default_factory=list)


@dataclass
class Grandchild(same_b.Holder):
    "Inherits from a class whose forward references are of yet another module."

    items: list[Item] = field(default_factory=list)
