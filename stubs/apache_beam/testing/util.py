def equal_to(expected):
    def check(actual):
        if sorted(map(repr, expected)) != sorted(map(repr, actual)):
            raise AssertionError(f"{expected} != {actual}")

    return check


def assert_that(pcoll, matcher, label="assert_that"):
    matcher(pcoll.elements)
