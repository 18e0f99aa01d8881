from rules.transfer import p03 as check  # noqa
