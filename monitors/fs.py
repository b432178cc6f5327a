"""Scratch file systems: a local one and an emulated cloud bucket."""

import os
import tempfile

import cloudpathlib.local

from wfa_planning_evaluation_framework.filesystem_wrappers import (
    filesystem_cloudpath_wrapper,
    filesystem_pathlib_wrapper,
)

# Emulated Google Cloud Storage: the bucket lives in a scratch directory.  This is the
# substitution the repository's own tests use.
filesystem_cloudpath_wrapper.CloudPath = cloudpathlib.local.LocalGSPath

_bucket = [0]


def local_fs(ctx):
    """(filesystem, root path) on the local disk, inside the case's scratch dir."""
    root = os.path.join(ctx.tmpdir(), "fsroot", "r")
    os.makedirs(root, exist_ok=True)
    return filesystem_pathlib_wrapper.FilesystemPathlibWrapper(), root


def cloud_fs(ctx):
    """(filesystem, root path) in a fresh emulated bucket."""
    _bucket[0] += 1
    cloudpathlib.local.LocalGSClient.get_default_client()

    def clean():
        cloudpathlib.local.localclient.clean_temp_dirs()
        cloudpathlib.local.LocalGSClient.reset_default_storage_dir()

    ctx.finalizers.append(clean)
    root = "gs://bucket{}-{}/r".format(os.getpid(), _bucket[0])
    return filesystem_cloudpath_wrapper.FilesystemCloudpathWrapper(), root
