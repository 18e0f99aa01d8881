from rules.lifecycle import p05 as check  # noqa
