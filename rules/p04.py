from rules.lifecycle import p04 as check  # noqa
