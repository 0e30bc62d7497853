"""Reference meaning of command lists: a fold over a plain dictionary keyed by (scope, seat, property name)."""
NUMBERS = {"player_count", "play_wind_count", "wind", "round", "sub_round", "dealer"}
LISTS = {"using_tiles", "dora_indicators", "hand", "discard_tiles", "meld_public_tiles", "bonus_tiles", "fixed_meld",
         "discard_from_hand", "faans"}
TILES = {"dora_indicators", "hand", "discard_tiles", "meld_public_tiles", "bonus_tiles"}


class Broken(Exception):
    """The command has no meaning in this state."""


def key_of(command):
    return command.prop.scope.name, command.sub_scope_id if command.prop.scope.name == "player" else "all", \
        command.property.name


def default(name):
    if name in LISTS:
        return []
    if name in NUMBERS:
        return 0
    raise Broken("no default for %s" % name)


def step(old, name, update, value):
    """New value of a property; old is None when it has none."""
    if update in ("REPLACE", "ASSERT_EQUAL_OR_SET"):
        return value
    if update == "RESET_DEFAULT":
        return default(name)
    if update == "ADD":
        try:
            return old + value
        except TypeError:
            raise Broken("cannot add")
    if update == "REMOVE":
        if name in LISTS:
            if old is None:
                raise Broken("nothing to remove from")
            rest = list(old)
            for v in value:
                if v not in rest:
                    raise Broken("%r is not there" % (v,))
                rest.remove(v)
            return rest
        try:
            return old - value
        except TypeError:
            raise Broken("cannot subtract")
    raise Broken("unknown update %s" % update)


def agree(name, a, b):
    if name in TILES:
        return sorted(a) == sorted(b)
    return a == b
