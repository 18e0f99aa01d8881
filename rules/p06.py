from rules.lifecycle import p06 as check  # noqa
