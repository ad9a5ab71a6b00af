"Classes whose schemas are asked for: a module with few members, as all of them are looked at."

from dataclasses import dataclass
from typing import Optional

from strong_typing.schema import json_schema_type


@json_schema_type
@dataclass
class Registered:
    """
    A registered class.

    :param number: A number.
    """

    number: int
    other: Optional["Registered"] = None


@dataclass
class Owner:
    """
    A class with a registered member.

    :param item: The member.
    """

    item: Registered
