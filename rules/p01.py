from rules.memory import p01 as check  # noqa
