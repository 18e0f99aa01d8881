from rules.hosts import p09 as check  # noqa
