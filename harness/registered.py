"Classes and other types registered with a schema, which others refer to."

import enum
from dataclasses import dataclass, field
from typing import Annotated, Literal, NamedTuple, Optional, Union

from strong_typing.auxiliary import Alias, IntegerRange
from strong_typing.schema import json_schema_type, register_schema


@json_schema_type
@dataclass
class Node:
    """
    A node of a tree.

    Nodes have any number of children.

    :param value: What the node holds.
    :param children: Nodes below.
    """

    value: int
    children: list["Node"] = field(default_factory=list)


@json_schema_type
@dataclass
class Even:
    "Alternates with odd."

    text: Optional[str]
    odd: Optional["Odd"] = None


@json_schema_type
@dataclass
class Odd:
    number: int
    even: Optional[Even] = None


@json_schema_type(examples=[{"x": 1, "y": 2}, {"x": 0, "y": 0}])  # type: ignore
@dataclass(frozen=True)
class Point:
    """
    A location.

    :param x: Horizontal coordinate.
    :param y: Vertical coordinate.
    """

    x: int
    y: int


@json_schema_type
class Direction(enum.Enum):
    "Where to go."

    NORTH = "north"
    SOUTH = "south"


@json_schema_type
class Span(NamedTuple):
    start: Point
    length: int


Percent = Annotated[int, IntegerRange(0, 100)]
register_schema(Percent, name="Percent")


@dataclass
class Route:
    "Not registered itself."

    start: Point
    stops: list[Point]
    direction: Direction
    by_direction: dict[Direction, int]
    last: Optional[Point] = None


@json_schema_type
@dataclass
class Journey:
    routes: list[Route]
    tree: dict[str, Node]
    span: Span
    done: Annotated[Percent, Alias("percent-done")]


@json_schema_type
@dataclass
class Car:
    kind: Literal["car"]
    seats: int


@json_schema_type
@dataclass
class Bike:
    kind: Literal["bike"]


@json_schema_type
@dataclass
class Garage:
    "Vehicles told apart by their kind."

    vehicles: list[Union[Car, Bike]]
    owner: Optional[Union[Car, Bike]] = None


@dataclass
class Both:
    """
    Refers to types in each direction.

    :param even: First.
    :param odd: Second.
    """

    even: Even
    odd: list[Odd]


RECURSIVE = [Node, Even, Odd]
PLAIN = [Point, Span, Route, Car, Bike, Garage, Both]
ALL = RECURSIVE + PLAIN + [Direction, Percent, Journey]
