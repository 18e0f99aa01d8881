from rules.cache import p07 as check  # noqa
