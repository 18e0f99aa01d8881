from rules.nulls import p13 as check  # noqa
