from rules.formats import run as check  # noqa
