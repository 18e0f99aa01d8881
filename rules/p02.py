from rules.errors import p02 as check  # noqa
