from rules.http import p10 as check  # noqa
